#include "gen.h"
#include "model.h"
#include <math.h>
#include <algorithm>

typedef std::vector<std::string> Strs;

namespace
{
enum Kind { K_EVAL, K_HIST, K_FUN, K_SYM, K_MARK, K_DEF, K_CLEAR, K_CLEARALL, K_TABLE, K_FOLD, K_LOAD, K_LOADRS, K_HELP, K_REJECT, K_BLANK, K_COMMENT, K_RAND, K_LONG, K_NUL, NUM_KINDS };

struct Gen
{
    Rng r;
    Scenario sc;
    bool thorough;
    std::map<int, double> w;                       // weights of kinds
    std::vector<std::pair<std::string, int>> defs; // live user functions (approximately)
    long hist = 0;                                 // number of results (approximately)
    size_t bytes = 0;                              // of long lines and files so far
    int rules = 0;                                 // 0 none, 1 tiny, 2 full
    int files = 0, sentinels = 0;
    int max_nest = 3;
    size_t name_len = 0;                           // swarm: prefer long names
    bool allow_rand = false;
    bool big = false;
    double special = 0;                            // rate of results that are no finite number
    Strs rs_good, rs_bad;                          // ruleset files

    Gen(uint64_t seed) : r(seed) {}

    // ---------------------------------------------------------------- pieces
    std::string lit()
    {
        switch (r.below(12))
        {
            case 0: return "0";
            case 1: return strf("%ld.5", r.range(0, 50));
            case 2: return strf("%ld.%02ld", r.range(0, 9), r.range(1, 99));
            case 3: return strf("%ld", r.range(100, 99999));
            case 4: return strf("%ld", r.range(1, 3));
            default: return strf("%ld", r.range(1, 40));
        }
    }
    std::string intlit() { return strf("%ld", r.range(1, 30)); }
    std::string sentinel()
    {
        int n = sentinels++;
        return strf("zq%c%c%c", (char)('a' + n / 676 % 26), (char)('a' + n / 26 % 26), (char)('a' + n % 26));
    }
    std::string sym()
    {
        static const Strs s = { "zqa", "zqb", "zqc", "zqx", "zqlong" };
        return r.pick(s);
    }
    std::string fresh_name()
    {
        static const Strs pool = { "f", "fa", "fab", "fabc", "g", "ga", "a", "b", "c", "foo", "fo", "foobar", "A", "_x", "si", "sinn", "maxi", "an", "anss",
            "p", "piz", "ee", "h", "k", "t", "u", "v", "tablea", "load", "clearx", "clearing", "quitt", "helpx", "clea", "licensed", "s", "co", "cosx", "area", "ra", "ran", "randx", "x", "y" };
        std::string n;
        switch (r.below(8))
        {
            case 0: // extend or shorten a live name
                if (!defs.empty())
                {
                    n = r.pick(defs).first;
                    if (r.chance(0.5) || n.size() < 2) n += (char)('a' + r.below(4));
                    else n.pop_back();
                    break;
                }
                // fall through
            case 1:
                n = std::string(1, (char)('a' + r.below(26))) + std::string(1, (char)('a' + r.below(26)));
                break;
            case 2:
                if (r.chance(0.3 + (name_len ? 0.5 : 0)))
                {
                    size_t len = name_len ? name_len + r.below(8) : 20 + r.below(30);
                    for (size_t i = 0; i < len; i++) n += (char)((r.chance(0.1) ? 'A' : 'a') + r.below(3));
                    break;
                }
                // fall through
            default: n = r.pick(pool);
        }
        if (n == "C" || n == "e" || n == "inf" || n == "nan" || n == "load" || n.compare(0, 2, "zq") == 0) n = "w" + n;
        if (n == "help" || n == "clear" || n == "quit" || n == "license") n = "q" + n;
        if (builtin_functions().count(n)) n += "q";
        return n;
    }
    bool is_def(const std::string &n) { for (auto &d : defs) if (d.first == n) return true; return false; }
    void undef(const std::string &n) { for (size_t i = 0; i < defs.size(); i++) if (defs[i].first == n) { defs.erase(defs.begin() + i); return; } }

    std::string hist_ref()
    {
        if (hist == 0 || r.chance(0.3)) return "ans";
        long k;
        switch (r.below(4))
        {
            case 0: k = 0; break;
            case 1: k = hist - 1; break;
            case 2: k = std::min(hist - 1, r.range(0, 9)); break;
            default: k = r.range(0, hist - 1);
        }
        return strf("@%ld", k);
    }
    std::string call(int depth)
    {
        if (defs.empty()) return lit();
        auto &d = defs[r.below(defs.size())];
        if (d.second == 0) return d.first;
        std::string s = d.first + "(";
        for (int i = 0; i < d.second; i++) s += (i ? "," : "") + (rules == 2 ? intlit() : operand(depth + 1));
        return s + ")";
    }
    bool use_hist = false, use_fun = false;
    std::string operand(int depth)
    {
        if (depth > 3) return lit();
        if (use_hist && hist > 0 && r.chance(0.3)) return hist_ref();
        if (use_fun && r.chance(0.3)) return call(depth);
        switch (r.below(14))
        {
            case 0: return "(" + expr(depth + 1) + ")";
            case 1: return "-" + lit();
            case 2: { static const Strs f = { "sqrt", "abs", "ceil", "floor", "round", "trunc", "sgn" }; std::string g = r.pick(f); return g + "(" + (g == "sqrt" ? lit() : expr(depth + 1)) + ")"; }
            case 4:
            {
                // The less common ones
                switch (r.below(8))
                {
                    case 0: return "(" + (r.chance(0.9) ? intlit() : strf("%ld", r.range(31, 170))) + "!)";
                    case 1: return lit() + "%";
                    case 2: return "(" + lit() + " mod " + intlit() + ")";
                    case 3: { long k = r.range(1, 20); return strf("(%ld C %ld)", k + r.range(0, 20), k); }
                    case 4: { auto arg = [&]() { return r.chance(0.8) ? intlit() : strf("%ld", r.range(1, 1l << r.range(5, 62))); }; std::string a = arg(); return (r.chance(0.5) ? "gcd(" : "lcm(") + a + "," + arg() + ")"; }
                    case 5: return r.chance(0.8) ? strf("fib(%ld)", r.range(0, 15)) : strf("fib(%ld)", r.range(-100, 1000));
                    case 6: { static const Strs f = { "avg", "var" }; std::string s = r.pick(f) + "("; long n = r.range(1, 4); for (long i = 0; i < n; i++) s += (i ? "," : "") + lit(); return s + ")"; }
                    default: { static const Strs f = { "exp", "ld", "lg", "tan", "atan", "frac", "sin", "cos", "ln" }; return r.pick(f) + "(" + lit() + ")"; }
                }
            }
            case 3: { static const Strs f = { "max", "min", "sum", "prod" }; std::string s = r.pick(f) + "("; long n = r.range(1, 4); for (long i = 0; i < n; i++) s += (i ? "," : "") + expr(depth + 2); return s + ")"; }
            default: return lit();
        }
    }
    std::string sp() { return r.chance(0.1) ? " " : ""; }
    // Operators of every precedence side by side
    std::string mixed(int depth)
    {
        auto one = [&]() -> std::string
        {
            switch (r.below(12))
            {
                case 0: return "-" + lit();
                case 1: return "(" + expr(depth + 1) + ")";
                case 2: return "+" + lit();
                case 3: return intlit() + "!";
                case 4: return lit() + "%";
                case 5: return "--" + lit();
                case 6: return use_hist && hist > 0 ? hist_ref() : "-@0";
                case 7: return operand(depth + 1);
                case 8: return "-" + intlit() + "%";
                default: return lit();
            }
        };
        if (r.chance(0.1)) { long k = r.range(1, 20); return strf("(%ld+%ld C %ld)", k, r.range(1, 20), k); }
        std::string s = one();
        long n = r.range(1, 5);
        for (long i = 0; i < n; i++)
        {
            switch (r.below(9))
            {
                case 0: case 1: s += sp() + "*" + sp() + one(); break;
                case 2: s += "/" + one(); break;
                case 3: s += "^" + strf("%ld", r.range(0, 3)); break;
                case 4: s += r.chance(0.3) ? " mod " + intlit() : " " + lit(); break;
                case 5: s += "(" + lit() + ")"; break;
                case 6: s += "+" + one(); break;
                case 7: if (r.chance(0.2)) { s += "-$" + one() + "+" + one(); break; }
                // fall through
                default: s += sp() + "-" + sp() + one(); break;
            }
        }
        return s;
    }
    std::string expr(int depth)
    {
        if (depth < 3 && r.chance(0.08)) return mixed(depth);
        switch (r.below(6))
        {
            case 0: return operand(depth);
            case 1: case 2: case 3:
            {
                std::string s = operand(depth);
                long n = r.range(1, 3);
                for (long i = 0; i < n; i++) s += sp() + (r.chance(0.5) ? "+" : "-") + sp() + operand(depth + 1);
                return s;
            }
            case 4: return operand(depth + 1) + sp() + "*" + sp() + lit();
            default: return operand(depth + 1) + "/" + (r.chance(0.5) ? "3" : "7");
        }
    }
    std::string special_result()
    {
        static const Strs s = { "ln(-1)", "ln(0)", "-ln(0)", "10^400", "-(10^400)", "ln(0)-ln(0)", "2*ln(-2)", "max(1,ln(-1))", "sqrt(ln(-1))", "@(ln(-1))", "@(-ln(0))", "abs(ln(0))", "gamma(0)", "0*ln(0)", "1/ln(0)" };
        return r.pick(s);
    }
    // An index far beyond the history, maybe not if it is cut to fewer bits
    std::string far_index()
    {
        static const Strs s = { "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "9223372036854775808", "10^30", "-1", "-4294967296", "-256", "-0.999", "0.999" };
        std::string i = r.pick(s);
        if (i == "256" || i == "65536" || r.chance(0.2)) i = strf("%ld", (1l << r.pick(std::vector<long>{ 8, 16, 32 })) * r.range(1, 3) + r.range(0, std::max(0l, std::min(hist - 1, 200l))));
        return (r.chance(0.8) ? "@(" : "0*@(") + i + ")";
    }
    std::string neg_result() { return strf("%ld-%ld", r.range(0, 20), r.range(21, 500)); }

    // Right hand side over params
    std::string body(const Strs &ps, int depth)
    {
        auto p = [&]() { return r.pick(ps); };
        if (rules == 2 || rules == 3)
        {
            switch (r.below(5))
            {
                case 0: return p();
                case 1: return intlit() + "*" + p();
                case 2: return p() + "+" + intlit();
                case 3: return "(" + intlit() + "*" + p() + ")+(" + intlit() + "*" + p() + ")";
                default: return p() + "+" + p() + "+" + intlit();
            }
        }
        switch (r.below(14))
        {
            case 0: return p();
            case 1: return p() + "+" + p();
            case 2: return p() + "-" + operand(2);
            case 3: return "(" + p() + "*" + p() + ")-" + p();
            case 4: return operand(2) + "*" + p();
            case 5: return "max(" + p() + "," + p() + "," + lit() + ")";
            case 6: return "-" + p();
            case 7: return depth < 2 ? "(" + body(ps, depth + 1) + ")+(" + body(ps, depth + 1) + ")" : p();
            case 8: return depth < 2 ? "(" + body(ps, depth + 1) + ")*" + lit() : p();
            case 9: if (!defs.empty())
            {
                auto &d = defs[r.below(defs.size())];
                if (d.second == 0) return d.first + "+" + p();
                std::string s = d.first + "(";
                for (int i = 0; i < d.second; i++) s += (i ? "," : "") + (r.chance(0.7) ? p() : depth < 2 ? body(ps, depth + 1) : lit());
                return s + ")";
            }
            // fall through
            case 10: return hist > 0 ? hist_ref() + "+" + p() : p() + "/4";
            case 11: { static const Strs m = { "sinh", "cosh", "tanh" }; return rules == 1 ? r.pick(m) + "(" + p() + ")" : "abs(" + p() + ")"; }
            default: { std::string s = p(); long n = r.range(1, 3); for (long i = 0; i < n; i++) s += (r.chance(0.6) ? "+" : "-") + (r.chance(0.5) ? p() : lit()); return s; }
        }
    }
    std::string def_line(std::string name, int arity)
    {
        Strs ps;
        static const Strs pn = { "x", "y", "z", "n", "m", "aa", "bb", "q", "xy", "zz", "xyz", "i", "j" };
        static const Strs alt = { "zqp", "zqq", "zqr", "zqs", "zqt", "zqu", "zqv", "zqw", "zqpp", "zqqq" };
        for (int i = 0; i < arity; i++)
        {
            std::string p;
            for (int t = 0; t < 40; t++)
            {
                p = t < 20 ? r.pick(pn) : alt[i % alt.size()];
                if (!is_def(p) && p != name && std::find(ps.begin(), ps.end(), p) == ps.end()) break;
            }
            ps.push_back(p);
        }
        std::string left = name;
        if (arity > 0 || r.chance(0.1))
        {
            left += "(";
            for (int i = 0; i < arity; i++) left += (i ? "," : "") + sp() + ps[i];
            left += ")";
        }
        std::string b;
        if (arity == 0)
        {
            bool h = use_hist, f = use_fun;
            use_hist = use_fun = true;
            b = rules >= 2 ? intlit() : expr(1);
            use_hist = h; use_fun = f;
        }
        else b = body(ps, 0);
        return left + sp() + "=" + sp() + b;
    }
    int arity() { return r.chance(0.25) ? 0 : r.chance(0.1) ? (int)r.range(4, 10) : (int)r.range(1, 3); }

    std::string path()
    {
        static const Strs p = { "prog%d", "dir/p%d.txt", "with space %d", "/abs/file%d", "p%d", "simplification%d" };
        std::string s = r.pick(p);
        s = strf(s.c_str(), files++);
        if (r.chance(0.05)) s += std::string(150, 'p');
        if (r.chance(0.15))
        {
            // A path is taken literally, whatever it looks like
            static const Strs odd = { "-", "~/n%d", "~n%d", "$HOME/n%d", "*.n%d", "n%d*", "'n%d'", "\"n%d\"", "n%d.ccalc", " n%d", "n%d ", "  n%d  ", "./n%d", "n//%d", "../n%d", "n%d\\", "n\\ %d", "%%s%%n%d", "/dev/stdin", "/dev/fd/%d", "/proc/self/fd/%d", "|n%d", "n%d|", "n%d;ls", "file:n%d", "file:///n%d", "n%d,n", "<n%d", ">n%d", "n%d#", "#n%d", "n%d.gz", "[n%d]",
                "?n%d", "n%d?", "{n%d}", "N%d.TXT", "\xc3\xa4%d", "n\t%d", "\tn%d", "n%d\r", "load %d", "quit%d", "-c%d", "n%d/", "n%d&", "!%d", "`n%d`", "n%d:1", "@n%d" };
            std::string o = strf(r.pick(odd).c_str(), files++);
            if (!sc.files.count(o)) s = o;
        }
        return s;
    }

    // ---------------------------------------------------------------- rejected commands
    // Something valid of great length, ends with an operator
    std::string long_prefix()
    {
        size_t len = r.chance(0.2) ? r.range(1000, 20000) : r.chance(0.5) ? r.range(240, 270) : r.range(60, 1100);
        if (bytes > 200000) len = 300;
        bytes += len;
        std::string s;
        switch (r.below(5))
        {
            case 0: return std::string(len, ' ');
            case 1: s = std::string(len, '1') + "+"; break;
            case 2: s = "zq" + std::string(len, 'l') + "+"; break;
            case 3: while (s.size() < len) s += intlit() + (r.chance(0.3) ? " + " : "+"); break;
            default: while (s.size() < len && s.size() < 5000) s += "1+";
        }
        return s;
    }
    std::string reject(bool far = true)
    {
        if (r.chance(0.06) && far)
        {
            std::string l = long_prefix();
            size_t a = l.find_first_not_of(' ');
            bool value = a != std::string::npos && l[a] != 'z';
            switch (r.below(11))
            {
                case 0: return l + "*2";
                case 1: return l + "2?3";
                case 2: return l + "(1";
                case 3: return l + "1)";
                case 4: return l + "sqrt(1,2)";
                case 5: return value ? l + "(1/0)" : l;
                case 6: return value ? l + "sqrt(-1)" : l + "(";
                case 7: { std::string n = fresh_name(); return is_def(n) ? l : n + "(zqp)=" + l + "zqp+zqother"; }
                case 8: { std::string n = fresh_name(); return is_def(n) ? l : n + "=" + l + "*"; }
                case 9: return "clear zq" + std::string(l.size(), 'n');
                default: return "load " + std::string(l.size() % 3000, 'n');
            }
        }
        switch (r.below(28))
        {
            case 27:
            {
                // Command words without what they need, blanks only, pieces of commands
                static const Strs t = { "clear ", "clear  ", "clear  zqa", "clear sin ", "clear ans ", "clear @1", "clear *", "clear zqu,zqv", "clear zqu zqv", "clear #x", "load ", "load  ", "load simplification ", "load  no", "table ", "table x", "table  ", "table fold", "table ;", "table ;;", "table ;;;",
                    "table fold ;", " ", "   ", "                ", "=", "=5", "zqz=", "zqz(zqp)=", "zqz =", "()", "(", ")", ",", "1,2", "zqz(zqp,)=1", "zqz(,zqp)=1", "'", ";", "fold ;", "(((", ")(", "@", "@@", "$$=3", "5=5", "\"", "->", "sum(1,)", "sum(,)", "1 2 =", "= =",
                    "\xef\xbb\xbf" "1+1", "1+1\r", "zqa\r", "quit\r", "clear\r", "\r", "\t", "\t1", "1\t+1", "1+1;", "1+1 # c", " # c", "1 // c", "1;2", "1 && 2", "$", "!1", "`1`", "1+\\", "\\", "1\\", "\"1\"", "'1'", "1:2", "1|2", "&", "<", "1>2", "~1", "1_", "%", "5%5", "..", "1..2", "1.2.3", "0x1F", "1e5e", "\x7f", "\xff", "\xc3\xa4", "\x1b[A", "\x04", "\x1a", "\f", "\v1", "1\b1",
                    "load %s%s%n%n", "load simplification %s%n", "clear %n%s", "%s%s%s%n", "zqz(%s)=1", "%n=1", "load %5000d", "%1000000c", "table %s%n;1;2;1", "clear %*d", "load {0}%1$s%99$s" };
                return r.pick(t);
            }
            case 26:
            {
                static const Strs t = { "(zqa+zqb)'", "(zqa*zqb)'", "deriv(zqa,2)", "sinh(zqa)'", "deriv(gamma(zqa),zqa)", "(1/0)'", "5'+0/0", "0/0+5'", "deriv(3)", "'", "zqa''" };
                if (r.chance(0.3)) return r.chance(0.5) ? "5'+0*@" + strf("%ld", hist + r.range(5, 4000)) : "5'+@" + strf("%ld", hist + r.range(5, 4000));
                return r.pick(t);
            }
            case 0: return r.chance(0.3) ? "0*@" + strf("%ld", hist + r.range(5, 4000)) : r.chance(0.3) ? std::string("0/0") : lit() + "/0";
            case 1: return "sqrt(-" + intlit() + ")";
            case 2: return lit() + "+";
            case 3: return "(" + lit() + "+" + lit();
            case 4: return lit() + ")";
            case 5: return "*" + lit();
            case 6: return lit() + "?" + lit();
            case 7: return "sqrt(1,2)";
            case 8: return "sqrt";
            case 9: return strf("@%ld", hist + r.range(5, 4000));
            case 10: return r.chance(0.5) ? "sin=" + lit() : "max(x)=x";
            case 11: return defs.empty() ? "pi=3" : r.pick(defs).first + (r.chance(0.5) ? "=5" : "(x)=x");
            case 12: { std::string n = fresh_name(); return is_def(n) ? "1+" : n + "(x)=" + n + "(x)+1"; }
            case 13: { std::string n = fresh_name(); return is_def(n) ? "(1,2)" : n + "(zqp)=zqp+zqother"; }
            case 14: { std::string n = fresh_name(); return n + "(zqp,zqp)=zqp"; }
            case 15: { std::string n = fresh_name(); return n + "(3)=3"; }
            case 16: return "5=7";
            case 17: { std::string n = fresh_name(); return n + "=1/0"; }
            case 18: { std::string n = fresh_name(); return n + "(zqp)=zqp+"; }
            case 19: return "clear " + (r.chance(0.5) ? std::string("sin") : "zqunknown");
            case 20:
            {
                if (defs.empty() || r.chance(0.2)) return "clear ans";
                // Something else than the name of a function, although there is one in it
                const std::string &n = r.pick(defs).first, &m = r.pick(defs).first;
                switch (r.below(10))
                {
                    case 0: return "clear " + n + " zqunknown";
                    case 1: return "clear " + n + " ";
                    case 2: return "clear  " + n;
                    case 3: return "clear " + n + " " + m;
                    case 4: return "clear " + n + "," + m;
                    case 5: return "clear " + n + "(zqa)";
                    case 6: return "clear " + n + ";";
                    case 7: return "clear zqunknown " + n;
                    case 8: return "clear all " + n;
                    default: return "clear " + n + "'";
                }
            }
            case 21: return "load no/such/file" + intlit();
            case 22: return "load simplification no/such/rules";
            case 23: { static const Strs t = { "table x;1;2", "table zqx;1;3;0", "table zqx+zqy;1;2;1", "table zqx;zqa;2;1", "table zqx;1;2;1 fold zqk;1", "table zqx;1;1/0;1", "table ;1;2;1", "table zqx;1;2;1 fold x+y;zqi", "table 1/0;1;2;1", "table zqx;0;2;1 fold x/y;1", "table zqx;-2;2;1 fold x/y;5", "table zqx;2;-1;1 fold x/y;0",
                "table zqx;100000000000000000;100000000000000050;1", "table zqx;-9007199254740994;-9007199254740990;.5", "table 1;36028797018963968;36028797018963968;2 fold x+y;0", "table zqx;1;2;1/1000000000000000000", "table zqx;9007199254740990;9007199254741000;1" }; return r.pick(t); }
            case 24: { std::string n = fresh_name(); std::string s = n + "("; for (int i = 0; i < 11; i++) s += (i ? "," : "") + std::string("zqp") + (char)('a' + i); return s + ")=1"; }
            default: return rs_bad.empty() ? "1+*2" : "load simplification " + r.pick(rs_bad);
        }
    }

    // ---------------------------------------------------------------- lines
    Kind pick_kind()
    {
        double total = 0;
        for (auto &k : w) total += k.second;
        double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * total;
        for (auto &k : w) { x -= k.second; if (x < 0) return (Kind)k.first; }
        return K_EVAL;
    }
    // Whatever follows the #
    std::string comment()
    {
        if (r.chance(0.3)) return "#";
        if (r.chance(0.5)) return "# " + std::string(r.below(big ? 3000 : 40), 'c') + " 1/0";
        static const Strs s = { "\\", " C:\\dir\\", " a \\\\", " it's", " \"open", " (", "#", "!", " quit", "quit", " load x \\", "\t\\", " ;", " \\ ", "=", " f(x)=x", "\x1a", " \x04", " \r", " \xff\xfe", " <<E", " &", " |", " %s%n", " \x1b[", " $(", " `", " {", " ,", "-c" };
        return "#" + r.pick(s);
    }
    void add(Strs &out, int nest)
    {
        Kind k = pick_kind();
        size_t before = out.size();
        add_kind(k, out, nest);
        // Braces mean the same as parentheses
        if ((k == K_EVAL || k == K_HIST || k == K_FUN || k == K_SYM || k == K_TABLE || k == K_FOLD) && out.size() == before + 1 && r.chance(0.04))
            for (char &c : out.back()) { if (c == '(' && r.chance(0.7)) c = '{'; else if (c == ')' && r.chance(0.7)) c = '}'; }
    }
    void add_kind(Kind k, Strs &out, int nest)
    {
        switch (k)
        {
            case K_EVAL:
                use_hist = use_fun = false;
                out.push_back(r.chance(special) ? special_result() : r.chance(0.2) ? neg_result() : expr(0));
                hist++;
                break;
            case K_HIST:
            {
                if (hist == 0) { out.push_back(lit()); hist++; break; }
                use_hist = true; use_fun = false;
                std::string h = hist_ref();
                if (r.chance(special)) { out.push_back(special_result()); if (r.chance(0.7)) out.push_back("ans"); hist += 2; break; }
                if (r.chance(special)) { out.push_back(far_index()); break; }
                switch (r.below(9))
                {
                    case 0: out.push_back(h); break;
                    case 1: out.push_back(h + "+" + lit()); break;
                    case 2: out.push_back(h + "-" + hist_ref()); break;
                    case 3: out.push_back("(" + h + ")/3"); break;
                    case 4: out.push_back("(" + h + "-" + lit() + ")*1000"); break;
                    case 5: out.push_back("max(" + h + "," + hist_ref() + ")"); break;
                    case 6: out.push_back("-" + h); break;
                    case 7: out.push_back("1/7"); break;
                    default: out.push_back(expr(0));
                }
                hist++;
                break;
            }
            case K_FUN:
                use_fun = true; use_hist = false;
                out.push_back(r.chance(0.6) ? call(0) : call(0) + "+" + operand(1));
                hist++;
                break;
            case K_SYM:
                switch (r.below(8))
                {
                    case 6: case 7:
                    {
                        // Something that stays an expression
                        std::string s = sym();
                        if (rules == 2 || rules == 3)
                        {
                            static const Strs t = { "3*$+zqz", "$*zqz+2", "$^3+zqz", "sqrt($)+1", "ln($)*2", "$/4", "sin($)^2+5", "($+1)*(zqz+2)", "2-$", "(2+3)*$", "$^2*7", "exp($)/3", "zqz^$", "$-zqz" };
                            std::string l = r.pick(t);
                            for (size_t a; (a = l.find('$')) != std::string::npos;) l.replace(a, 1, s);
                            out.push_back(l);
                            break;
                        }
                        use_hist = use_fun = false;
                        std::string l = mixed(2), m = r.chance(0.5) ? mixed(2) : lit();
                        if (!defs.empty() && r.chance(0.4))
                        {
                            auto &d = r.pick(defs);
                            l = d.first;
                            for (int i = 0; i < d.second; i++) l += (i ? "," : "(") + (r.chance(0.6) ? sym() : lit());
                            if (d.second) l += ")";
                        }
                        static const Strs ops = { "+", "-", "*", "/", "^", " mod ", " C ", " ", "-(", "/(", "^(", "*(-", "+@0*", "*3%-", "-$" };
                        std::string o1 = r.pick(ops), o2 = r.pick(ops);
                        l += o1 + (r.chance(0.2) ? "-" : "") + s + (r.chance(0.1) ? "!" : r.chance(0.1) ? "%" : "") + o2 + m;
                        for (auto *o : { &o1, &o2 }) if (o->find('(') != std::string::npos) l += ")";
                        out.push_back(l);
                        break;
                    }
                    case 5:
                    {
                        std::string s = sym();
                        static const Strs t = { "$!", "$%", "$'", "$ mod 3", "($+7)'", "(3*$)'", "($^2)'", "deriv($,$)", "deriv($,zqz)", "deriv(5,$)", "-$", "+$" };
                        std::string l = r.pick(t);
                        for (size_t a; (a = l.find('$')) != std::string::npos;) l.replace(a, 1, s);
                        out.push_back(l);
                        break;
                    }
                    case 0: out.push_back(sym()); break;
                    case 1: out.push_back(sym() + "+" + intlit()); break;
                    case 2: { std::string s = sym(); out.push_back(s + "+" + s); break; }
                    case 3:
                    {
                        if (r.chance(0.4))
                        {
                            // Look like commands
                            static const Strs t = { "quit ", " quit", "quit  ", "Quit", "QUIT", "exit", "quit quit", "(quit)", "quit(3)", "bye", "q", "end", "stop", "EOF", " help", "Help", "Clear", "CLEAR", " clear", "undo", "load", "table", "fold", "simplification", "version", "restart", "reset", "list", "vars", "license ", " license", "halt", "set", "mode", "rad", "deg", "ANS", "Ans", "answer", "last", "PI", "E" };
                            out.push_back(r.pick(t));
                            break;
                        }
                        std::string n = fresh_name();
                        out.push_back(is_def(n) ? sym() : n + "(zqa)");
                        break;
                    }
                    default: out.push_back(sentinel());
                }
                break;
            case K_MARK:
            {
                const std::string &m = r.pick(g_markers);
                if (rules == 2 || rules == 0) { std::string s = sym(); out.push_back(r.chance(0.5) ? s + "+" + s : rules == 2 ? s + "+" + s : m + "(" + s + ")"); }
                else
                {
                    std::string s = sym();
                    switch (r.below(6))
                    {
                        case 0: s += "+" + intlit(); break;
                        case 1: s = r.pick(g_markers) + "(" + s + ")"; break;
                        case 2: s = r.pick(g_markers) + "(" + r.pick(g_markers) + "(" + s + "))"; break;
                        default: break;
                    }
                    out.push_back(m + "(" + s + ")");
                }
                break;
            }
            case K_DEF:
            {
                std::string n = fresh_name();
                for (int t = 0; t < 10 && is_def(n) && r.chance(0.9); t++) n = fresh_name();
                int a = arity();
                std::string l = def_line(n, a);
                out.push_back(l);
                if (!is_def(n)) defs.push_back({ n, a });
                break;
            }
            case K_CLEAR:
            {
                if (defs.empty()) break;
                std::string n;
                switch (r.below(3))
                {
                    case 0: n = defs[0].first; break;
                    case 1: n = defs.back().first; break;
                    default: n = r.pick(defs).first;
                }
                if (r.chance(0.12) && rules == 0) out.push_back(strf("clear%c", "xq_s"[r.below(4)]) + n); // a variable
                out.push_back("clear " + n);
                undef(n);
                if (r.chance(0.4)) // define anew, maybe with another arity
                {
                    int a = arity();
                    out.push_back(def_line(n, a));
                    defs.push_back({ n, a });
                }
                break;
            }
            case K_CLEARALL:
                out.push_back("clear");
                defs.clear();
                break;
            case K_TABLE: case K_FOLD:
            {
                std::string e;
                long a = r.range(-5, 10), n = r.range(0, big ? 60 : 6);
                static const Strs es = { "zqx", "zqx*2", "zqx+1", "1/zqx", "sqrt(zqx)", "7", "(zqx*zqx)-1", "abs(zqx)" };
                e = r.pick(es);
                if (rules == 2) { static const Strs s = { "zqx", "zqx*2", "zqx+1", "7" }; e = r.pick(s); }
                if (!defs.empty() && r.chance(0.3))
                {
                    auto &d = defs[r.below(defs.size())];
                    e = d.first;
                    if (d.second) { e += "("; for (int i = 0; i < d.second; i++) e += (i ? ",zqx" : "zqx"); e += ")"; }
                }
                if (hist > 0 && r.chance(0.2)) e = "zqx+" + hist_ref();
                std::string step = r.chance(0.2) ? "-1" : r.chance(0.2) ? "0.5" : "1";
                std::string t = "table " + e + sp() + ";" + sp() + strf("%ld;%ld;", a, a + (r.chance(0.2) ? -n : n)) + step;
                if (k == K_FOLD)
                {
                    static const Strs fs = { "x+y", "y", "(x*2)+y", "max(x,y)", "x", "x-y" };
                    if (is_def("x") || is_def("y")) { out.push_back(lit()); hist++; break; }
                    t += " fold " + r.pick(fs) + ";" + (hist > 0 && r.chance(0.2) ? "ans" : strf("%ld", r.range(-9, 9)));
                    hist++;
                }
                out.push_back(t);
                break;
            }
            case K_LOAD:
            {
                if (nest >= max_nest || sc.files.size() > 40 || bytes > 200000) { out.push_back(sentinel()); break; }
                if (!sc.files.empty() && r.chance(0.15)) // again
                {
                    auto it = sc.files.begin();
                    std::advance(it, r.below(sc.files.size()));
                    if (it->second.find("RULESET") == std::string::npos && it->second.find("\nload") == std::string::npos && it->second.compare(0, 4, "load") != 0) { out.push_back("load " + it->first); break; }
                }
                std::string p = path();
                Strs l;
                long n = r.chance(0.1) ? 0 : r.range(1, big ? 20 : 6);
                for (long i = 0; i < n; i++) add(l, nest + 1);
                sc.files[p] = join_lines(l, r.chance(0.8));
                bytes += sc.files[p].size();
                out.push_back("load " + p);
                if (r.chance(0.3)) out.push_back(sentinel());
                break;
            }
            case K_LOADRS:
            {
                if (!rs_bad.empty() && r.chance(0.4)) { out.push_back("load simplification " + r.pick(rs_bad)); break; }
                if (rs_good.empty()) break;
                std::string p = r.pick(rs_good);
                bool full = sc.files[p] == full_ruleset();
                if (full && rules != 2 && !defs.empty()) { out.push_back("clear"); defs.clear(); }
                if (!full && rules == 2 && !defs.empty() && r.chance(0.5)) { out.push_back("clear"); defs.clear(); }
                out.push_back("load simplification " + p);
                rules = full ? 2 : 1;
                break;
            }
            case K_HELP:
                out.push_back(r.chance(0.8) ? "help" : r.chance(0.5) ? "help operators" : "license");
                out.push_back(sentinel());
                break;
            case K_REJECT: out.push_back(reject()); break;
            case K_BLANK: out.push_back(""); break;
            case K_COMMENT: out.push_back(comment()); break;
            case K_RAND:
                switch (r.below(9))
                {
                    case 8:
                    {
                        if (rules == 2) { out.push_back("rand(0,3)"); hist++; break; }
                        // Where doubles are sparse, or the interval wider than the random source
                        if (r.chance(0.3)) { out.push_back(strf("rand(%ld,%ld%0*d)", r.range(-9, 99), r.range(1, 9), (int)r.range(16, 30), 0)); hist++; break; }
                        int e = (int)r.range(50, 61);
                        long m = (1l << e) + r.range(0, (1l << e) / 2), u = 1l << (e > 52 ? e - 52 : 0);
                        m = m / u * u;
                        long b = m + u * (r.chance(0.6) ? r.range(1, 4) : r.range(1, 100000));
                        if (r.chance(0.7)) out.push_back(strf("rand(%ld,%ld)-%ld", m, b, m));
                        else out.push_back(strf("rand(-%ld,-%ld)+%ld", b, m, m));
                        hist++;
                        break;
                    }
                    case 6: { long a = r.range(-3000000000, 3000000000); out.push_back(strf("rand(%ld,%ld)", a, a + (r.chance(0.3) ? (1l << r.range(20, 32)) + r.range(-1, 1) : r.range(1, 6000000000)))); hist++; break; }
                    case 7: { long a = r.range(-9, 9); out.push_back(strf("rand(%ld.%ld,%ld.%ld)", a, r.range(0, 9), a + r.range(1, 3), r.range(0, 9))); hist++; break; }
                    case 0: { long a = r.range(-50, 50); out.push_back(strf("rand(%ld,%ld)", a, a + r.range(1, 3))); hist++; break; }
                    case 1: { long a = r.range(-1000, 1000); out.push_back(strf("rand(%ld,%ld)", a, a + r.range(1, 100000))); hist++; break; }
                    case 2: out.push_back(strf("rand(%ld.5,%ld.9)", r.range(0, 5), r.range(6, 12))); hist++; break;
                    case 3: { std::string n = fresh_name(); if (!is_def(n)) { out.push_back(n + strf("=rand(0,%ld)", r.range(1, 1000))); out.push_back(n); hist++; defs.push_back({ n, 0 }); } break; }
                    case 4: out.push_back(strf("table rand(%ld,%ld);1;%ld;1", r.range(-5, 0), r.range(1, 6), r.range(1, 8))); break;
                    default: out.push_back("rand(0,2)"); out.push_back("ans"); hist += 2; break;
                }
                break;
            case K_LONG:
            {
                size_t len;
                switch (r.below(7))
                {
                    case 0: len = 119 + r.below(4); break;
                    case 1: len = 254 + r.below(4); break;
                    case 2: len = 1022 + r.below(4); break;
                    case 3: len = 4094 + r.below(4); break;
                    case 4: len = 65533 + r.below(6); break;
                    case 5: len = 1 + r.below(300); break;
                    default: len = 1 + r.below(10000);
                }
                if (bytes > 200000) len = 1 + len % 200;
                bytes += len;
                switch (r.below(3))
                {
                    case 0: out.push_back("zq" + std::string(len, (char)('a' + r.below(26)))); break;
                    case 1: { std::string s = "1"; size_t n = std::min(len / 2, (size_t)2500); for (size_t i = 0; i < n; i++) s += "+1"; out.push_back(s); hist++; break; }
                    default: out.push_back("#" + std::string(len, '7'));
                }
                break;
            }
            case K_NUL:
            {
                std::string l = r.chance(0.3) ? "" : sentinel();
                out.push_back(l + std::string(1, '\0') + (r.chance(0.5) ? "1/0" : ""));
                break;
            }
            default: break;
        }
    }
    // Makes the whole state visible
    void probes(Strs &out)
    {
        out.push_back("help");
        out.push_back(sentinel());
        for (size_t i = 0; i < defs.size() && i < 12; i++)
        {
            auto &d = defs[defs.size() <= 12 ? i : r.below(defs.size())];
            std::string s = d.first;
            if (d.second) { s += "("; for (int j = 0; j < d.second; j++) s += (j ? "," : "") + strf("%ld", r.range(2, 9)); s += ")"; }
            out.push_back(s);
            hist++;
        }
        for (auto &m : g_markers) out.push_back(rules == 2 ? "zqa+zqa" : m + "(zqa)");
        for (long i = 0; i < std::min(hist, 6l); i++) out.push_back(strf("@%ld", r.chance(0.5) ? i : r.range(0, hist - 1)));
    }
    Strs program(long n)
    {
        Strs out;
        for (long i = 0; i < n; i++) add(out, 0);
        return out;
    }

    // More lines than anyone would type, in standard input or in a file
    void flood(Strs &p, bool file)
    {
        static const std::vector<long> ns = { 9999, 10000, 10001, 16385, 20000, 32768, 32770, 50001, 65536, 65538, 70000, 100001 };
        static const Strs ls = { "", "#", "# c", "1", "1", "zqa", "zqa=1", "1+", "@0", "clear zqa" };
        long n = r.pick(ns);
        std::string l = r.pick(ls);
        if (l == "@0") { p.insert(p.begin(), "5"); hist++; }
        Strs many;
        if (l == "1+" && p.empty()) l = "2"; // fails
        for (long i = 0; i < n; i++) many.push_back(l);
        if (l == "1" || l == "2" || l == "@0") hist += n;
        if (r.chance(0.5)) many.push_back(sentinel());
        size_t at = r.range(l == "@0" ? 1 : 0, (long)p.size());
        if (!file) p.insert(p.begin() + at, many.begin(), many.end());
        else
        {
            std::string f = path();
            sc.files[f] = join_lines(many, r.chance(0.8));
            p.insert(p.begin() + at, "load " + f);
        }
        p.push_back("7");
        hist++;
        if (r.chance(0.5)) p.push_back(strf("@%ld", r.range(0, hist - 1)));
        p.push_back("ans");
    }

    // The same thing over and over: counters that wrap, tables that fill up, limits that are reached only in long sessions
    std::string base26(long n) { std::string s; do { s += (char)('a' + n % 26); n /= 26; } while (n); return s; }
    void burst(Strs &p, bool failing_too = true)
    {
        static const std::vector<long> around = { 32, 64, 100, 128, 200, 256, 256, 256, 300, 512, 1000, 1024 };
        long n = r.pick(around) + (r.chance(0.5) ? 0 : r.range(-1, 2));
        Strs b;
        auto rep = [&](const std::string &l, long k) { for (long i = 0; i < k; i++) b.push_back(l); };
        switch (r.below(15))
        {
            case 0: case 1: if (failing_too) { rep(reject(false), n); break; } // fall through
            case 2: for (long i = 0; i < n; i++) b.push_back(strf("%ld", i)); b.push_back(strf("@%ld", r.range(0, n - 1))); b.push_back(strf("@%ld", n - 1)); hist += n; break;
            case 3: // many definitions, in the end some of them are used
            {
                std::string pre = r.chance(0.5) ? "w" : std::string(r.range(1, 20), 'w');
                n = std::min(n, rules >= 2 ? 64l : 600l);
                for (long i = 0; i < n; i++) b.push_back(pre + base26(i) + (rules >= 2 ? strf("=%ld", i) : strf("(q)=q+%ld", i)));
                for (long i = 0; i < 8; i++) b.push_back(pre + base26(i == 0 ? n - 1 : r.range(0, n - 1)) + (rules >= 2 ? "" : "(5)"));
                if (r.chance(0.5)) b.push_back("clear");
                else for (long i = 0; i < n; i += r.range(1, 4)) b.push_back("clear " + pre + base26(i));
                b.push_back(pre + base26(r.range(0, n - 1)));
                break;
            }
            case 4: if (failing_too) rep(r.chance(0.5) ? "load no/such/file" : "load simplification rules/missing", n);
            // fall through
            case 5:
            {
                std::string f = path();
                sc.files[f] = r.chance(0.5) ? "1+1\n" : "zqonce\n";
                rep("load " + f, r.chance(0.5) ? 1 : std::min(n, 600l));
                break;
            }
            case 6: // one expression with many applications
            {
                std::string f = "wf" + base26(r.below(600));
                if (rules >= 2) { rep("7", 3); break; }
                b.push_back(f + (r.chance(0.5) ? "(q)=q+1" : "(q)=(q*2)-1"));
                std::string s;
                n = std::min(n, 258l);
                if (r.chance(0.5)) { for (long i = 0; i < n; i++) s += (i ? "+" : "") + f + strf("(%ld)", i % 7); }
                else { n = std::min(n, 258l); s = "1"; for (long i = 0; i < n; i++) s = f + "(" + s + ")"; if (s.size() > 3000) s = f + "(1)"; }
                b.push_back(s);
                b.push_back("clear " + f);
                break;
            }
            case 7: b.push_back(strf("table zqx;1;%ld;1", n)); break;
            case 8: b.push_back(strf("table zqx;1;%ld;1 fold x+y;0", n)); b.push_back("ans"); hist++; break;
            case 9: // defined and cleared again and again
            {
                std::string f = "wg" + base26(r.below(600));
                for (long i = 0; i < n; i++) { b.push_back(f + (i % 3 == 0 || rules >= 2 ? strf("=%ld", i) : i % 3 == 1 ? strf("(q)=q+%ld", i) : strf("(q,qq)=q+qq+%ld", i))); if (i + 1 < n) b.push_back("clear " + f); }
                b.push_back(f + (rules >= 2 || (n - 1) % 3 == 0 ? "" : (n - 1) % 3 == 1 ? "(1)" : "(1,2)"));
                b.push_back("clear " + f);
                break;
            }
            case 10: { n = std::min(n, 513l); b.push_back(std::string(n, '(') + "5" + std::string(n, ')')); break; }
            case 11: { std::string s = "1"; for (long i = 1; i < n; i++) s += "+1"; b.push_back(s); s = "max(1"; for (long i = 1; i < n; i++) s += strf(",%ld", i); b.push_back(s + ")"); break; }
            case 12: rep(r.chance(0.5) ? "" : "# nothing", n); break;
            case 13: rep("zqsame", n); break;
            default: // a deep chain of loads
            {
                n = std::min(n, 300l);
                std::string f = path();
                sc.files[f] = "zqbottom\n2+3\n";
                for (long i = 0; i < n; i++) { std::string g = strf("chain/%ld", i); sc.files[g] = "load " + f + "\n" + (i % 16 == 3 ? "zqup\n" : ""); f = g; }
                b.push_back("load " + f);
                break;
            }
        }
        if (r.chance(0.25))
        {
            std::string f = path();
            sc.files[f] = join_lines(b, true);
            b = { "load " + f };
        }
        p.insert(p.begin() + r.below(p.size() + 1), b.begin(), b.end());
    }

    // ---------------------------------------------------------------- environment
    void weights(std::initializer_list<std::pair<int, double>> l) { for (auto &p : l) w[p.first] = p.second; }
    // Swarm: some kinds of commands are absent
    void swarm(double drop)
    {
        for (auto &k : w) if (r.chance(drop)) k.second = 0;
        double t = 0;
        for (auto &k : w) t += k.second;
        if (t == 0) w[K_EVAL] = 1;
    }
    std::vector<long> offsets()
    {
        std::vector<long> k;
        for (int i = 0; i < 7; i++) k.push_back(r.chance(0.2) ? -1 : r.chance(0.15) ? 0 : r.range(1, 999));
        return k;
    }
    // Rules with constraints, several for one marker
    std::string rich()
    {
        static const Strs ps = { "x", "y", "z", "a", "zq", "param" };
        std::string t;
        for (int s = 0; s < 7; s++)
        {
            t += "RULESET\n";
            for (long i = r.range(0, 4); i > 0; i--)
            {
                std::string p = r.pick(ps), k = r.chance(0.15) ? "" : strf("+%ld", r.range(1, 999));
                t += "    " + g_markers[r.chance(0.5) ? s : (int)r.below(7)] + "(" + p + ") -> " + p + k;
                long n = r.chance(0.3) ? 0 : r.range(1, 3);
                for (long j = 0; j < n; j++)
                {
                    size_t c = r.chance(0.6) ? r.below(6) : r.below(g_conds.size());
                    if (g_conds[c].second < 0) c = 0;
                    t += (j == 0 ? " WHERE " : " ; ") + cond_with(g_conds[c].first, p);
                }
                t += "\n";
            }
            if (r.chance(0.03)) t += g_wide_rule + "\n";
        }
        return t;
    }
    // The same rules, written at length
    std::string widen(const std::string &t)
    {
        Strs lines = split_lines(t);
        for (auto &l : lines)
        {
            size_t a = l.find(" -> ");
            if (a == std::string::npos) { if (l == "RULESET" && r.chance(0.3)) l = std::string(r.below(300), ' ') + l + (r.chance(0.5) ? std::string(r.below(300), ' ') : " # -> WHERE ; " + std::string(r.below(300), 'c')); continue; }
            if (r.chance(0.4) || l == g_wide_rule || l == g_too_wide_rule) continue;
            std::string o;
            size_t len = r.chance(0.5) ? r.range(1, 20) : r.chance(0.8) ? r.range(20, 400) : r.range(400, 3000);
            size_t w = l.find(" WHERE ");
            double each = r.chance(0.5) ? 0.2 : 0.8;
            for (size_t i = 0; i < l.size(); i++)
            {
                bool sep = l[i] == ' ' || (l[i] == '+' && i < w) || (l[i] == ')' && i < a);
                if (sep && r.chance(each)) o += std::string(r.below(len), ' ');
                o += l[i];
                if (sep && l[i] != ' ' && r.chance(each)) o += std::string(r.below(len), ' ');
                if (l[i] == '+' && i < w && i + 1 < l.size() && isdigit((unsigned char)l[i + 1]) && r.chance(0.3)) o += std::string(r.below(len), '0');
            }
            if (r.chance(0.3)) o = std::string(r.below(len), ' ') + o;
            if (r.chance(0.3)) o += std::string(r.below(len), ' ') + "#" + std::string(r.below(len), 'c') + (r.chance(0.3) ? " -> WHERE ; #" : "");
            l = o;
        }
        return join_lines(lines, true);
    }
    std::string tiny()
    {
        std::string t = r.chance(0.4) ? rich() : tiny_ruleset(offsets());
        // More rulesets than there are uses for
        if (r.chance(0.08))
        {
            for (long n = r.range(1, 4); n > 0; n--)
            {
                t += "RULESET\n";
                for (long i = r.range(0, 3); i > 0; i--) t += r.chance(0.2) ? "nonsense\n" : "    " + r.pick(g_markers) + strf("(x) -> x+%ld\n", r.range(1, 999));
            }
        }
        if (r.chance(0.2)) t = widen(t);
        if (r.chance(0.1)) t.pop_back();
        if (r.chance(0.1)) t = "\n\n" + t + "# the end";
        return t;
    }
    std::string malformed()
    {
        std::string t = tiny();
        auto lines = split_lines(t);
        if (r.chance(0.25))
        {
            // Too many constraints, or one that cannot be read
            std::string l = r.pick(g_markers) + strf("(x) -> x+%ld", r.range(1, 999));
            bool many = r.chance(0.5);
            long n = many ? r.range(4, 6) : r.range(1, 4), b = many ? -1 : r.range(0, n - 1);
            for (long j = 0; j < n; j++)
            {
                size_t c;
                do c = r.below(g_conds.size()); while ((g_conds[c].second < 0) != (j == b));
                l += (j == 0 ? " WHERE " : " ; ") + g_conds[c].first;
            }
            lines.insert(lines.begin() + r.range(2, lines.size()), l);
            return join_lines(lines, true);
        }
        switch (r.below(10))
        {
            case 6: case 8: case 9: lines.insert(lines.begin() + r.range(2, lines.size()), r.chance(0.15) ? g_too_wide_rule : r.pick(g_list_misuse)); break;
            case 0: return "";
            case 1: // too short
            {
                size_t p = t.rfind("RULESET");
                return t.substr(0, p);
            }
            case 2: lines.insert(lines.begin() + r.range(2, lines.size()), "nonsense without arrow"); break;
            case 3: lines.insert(lines.begin() + r.range(2, lines.size()), "    sinh(x) -> x+q"); break;
            case 4: lines.insert(lines.begin() + r.range(2, lines.size()), "    cosh(x) -> x+)"); break;
            case 5: return "# nothing but a comment\n\n";
            default: lines.push_back("    sinh(x) -> (x"); break;
        }
        return join_lines(lines, true);
    }
    // Ruleset read at start up. kind: -1 seeded
    void startup(int kind)
    {
        if (kind < 0) kind = (int)r.below(10);
        if (kind < 4) { sc.files[RULESET_PATH] = tiny(); rules = 1; }
        else if (kind < 6) { sc.files[RULESET_PATH] = full_ruleset(); rules = 2; }
        else if (kind == 6) sc.files[RULESET_PATH] = malformed();
        // else absent
    }
    void rule_files()
    {
        long n = r.range(1, 3);
        for (long i = 0; i < n; i++) { std::string p = strf("rules/r%ld", i); sc.files[p] = tiny(); rs_good.push_back(p); }
        if (r.chance(0.3)) { sc.files["rules/full"] = full_ruleset(); rs_good.push_back("rules/full"); }
        n = r.range(1, 3);
        for (long i = 0; i < n; i++) { std::string p = strf("rules/bad%ld", i); sc.files[p] = malformed(); rs_bad.push_back(p); }
        if (r.chance(0.5)) rs_bad.push_back("rules/missing");
    }
    void fault(const std::string &kind, const std::string &target, long a, long b = 0, const std::string &data = "") { sc.faults.push_back(Fault{ kind, target, a, b, data }); }
    void chunking(const std::string &target)
    {
        switch (r.below(6))
        {
            case 0: break; // as large as asked for
            case 1: fault("chunk", target, 0); break;
            case 2: fault("chunk", target, 1); break;
            case 3: fault("chunk", target, r.range(2, 64)); break;
            case 4: fault("chunk", target, -r.range(2, 20), (long)r.below(1000000)); break;
            default: fault("chunk", target, -r.range(20, 5000), (long)r.below(1000000)); break;
        }
    }
    void ambient()
    {
        sc.knobs["fill"] = r.range(0, 255);
        sc.knobs["stack"] = r.range(0, 255);
        switch (r.below(4))
        {
            case 0: sc.knobs["outbuf"] = 0; break;
            case 1: sc.knobs["outbuf"] = 1; break;
            case 2: sc.knobs["outbuf"] = 4096; break;
            default: sc.knobs["outbuf"] = r.range(2, 300);
        }
        fault("clock", "", r.chance(0.1) ? -1 : r.chance(0.1) ? 0 : r.range(1, 4000000000));
        fault("rng", "", 3, (long)r.below(1u << 30));
        if (r.chance(0.3)) fault("jump", "", r.range(1, 40), r.range(-2000000000, 2000000000));
        if (r.chance(0.3)) sc.knobs["pace"] = r.range(1, 100000);
        if (r.chance(0.5)) sc.knobs["outtty"] = r.range(0, 3); // whether output goes to a terminal
    }
    void short_writes()
    {
        if (r.chance(0.3)) fault("outshort", "stdout", r.range(1, 100), (long)r.below(100000));
        if (r.chance(0.2)) fault("outshort", "stderr", r.range(1, 100), (long)r.below(100000));
    }
    std::string eio_data(bool transient_too = true)
    {
        static const Strs e = { "EIO", "EISDIR", "ESTALE", "ENOMEM", "EAGAIN" };
        std::string s = r.pick(e);
        return (transient_too && r.chance(0.3) ? "1" : "") + s;
    }
    // A byte position within data, boundaries favoured
    long position(const std::string &d)
    {
        if (d.empty()) return 0;
        switch (r.below(6))
        {
            case 0: return 0;
            case 1: return (long)d.size();
            case 2: return (long)d.size() - 1;
            case 3: { std::vector<long> nl; for (size_t i = 0; i < d.size(); i++) if (d[i] == '\n') nl.push_back((long)i); if (!nl.empty()) return r.pick(nl) + r.range(0, 1); }
            // fall through
            default: return r.range(0, (long)d.size());
        }
    }
    // Converts a part of the program to arguments
    void to_args(Strs &prog)
    {
        if (prog.empty()) return;
        long n = r.range(1, std::min((long)prog.size(), 8l));
        sc.args.push_back(r.chance(0.5) ? "-c" : "--commands");
        if (r.chance(0.5)) sc.args.insert(sc.args.begin(), r.chance(0.5) ? "-i" : "--interactive");
        if (r.chance(0.3)) sc.args.insert(sc.args.begin(), r.chance(0.5) ? "-q" : "--quiet");
        for (long i = 0; i < n; i++) sc.args.push_back(prog[i]);
        prog.erase(prog.begin(), prog.begin() + n);
    }
};
}

static void all_kinds(Gen &g)
{
    g.weights({ { K_EVAL, 10 }, { K_HIST, 8 }, { K_FUN, 10 }, { K_SYM, 5 }, { K_MARK, 3 }, { K_DEF, 8 }, { K_CLEAR, 3 }, { K_CLEARALL, 0.5 }, { K_TABLE, 3 },
        { K_FOLD, 3 }, { K_LOAD, 4 }, { K_LOADRS, 2 }, { K_HELP, 1 }, { K_REJECT, 6 }, { K_BLANK, 1 }, { K_COMMENT, 2 }, { K_LONG, 0.5 } });
}

// Any expression: operands at the edge of what a number can be, rewriting that has much to do
static std::string wild(Rng &r, int depth, bool symbols, bool extreme)
{
    static const Strs f1 = { "exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "gamma", "fib", "$", "-", "+" };
    static const Strs f2 = { "root", "log", "gcd", "lcm", "rand" }, fn = { "max", "min", "sum", "prod", "avg", "var" };
    static const Strs in = { "+", "-", "*", "/", "^", " C ", " mod ", "+", "-", "*", "/", "^", " " };
    static const Strs lit = { "0", "1", "2", "3", "4", "5", "7", ".5", "2.5", "10", "pi", "e", "-1", "-2", "-.5" }, sym = { "zqx", "zqy", "zqx", "zqx", "zqz" };
    static const Strs edge = { "10^400", "(-10^400)", "(10^400-10^400)", "10^300", "100000000000000000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "2147483648", "-2147483649", "10^20", "1/10^300", "10^308", "(0-0)", "(-10^19)", "ln(0)", "gamma(-1)", "1000000" };
    auto sub = [&]() { return wild(r, depth - 1, symbols, extreme); };
    if (depth <= 0 || r.chance(0.2)) return symbols && r.chance(0.45) ? r.pick(sym) : extreme && r.chance(0.5) ? r.pick(edge) : r.pick(lit);
    switch (r.below(20))
    {
        case 0: case 1: case 2: return r.pick(f1) + "(" + sub() + ")";
        case 3: { std::string s = r.pick(f2) + "(" + sub(); return s + "," + sub() + ")"; }
        case 4: case 5: { std::string s = r.pick(fn) + "("; long n = r.range(0, 4); for (long i = 0; i < n; i++) s += (i ? "," : "") + sub(); return s + ")"; }
        case 6: case 7: { static const Strs p = { "'", "!", "%" }; return "(" + sub() + ")" + r.pick(p); }
        case 8: return symbols ? "deriv(" + sub() + "," + r.pick(sym) + ")" : "-(" + sub() + ")";
        case 9:
        {
            // Factors and summands of every sort next to one another
            bool sum = r.chance(0.3);
            std::string s;
            for (long n = r.range(2, 5), i = 0; i < n; i++)
            {
                if (i) s += sum ? (r.chance(0.5) ? "+" : "-") : r.chance(0.7) ? "*" : "/";
                switch (r.below(7))
                {
                    case 0: s += "(" + r.pick(lit) + ")'"; break;
                    case 1: s += symbols ? "deriv(" + r.pick(lit) + "," + r.pick(sym) + ")" : "-" + r.pick(lit); break;
                    case 2: s += "(-" + r.pick(lit) + ")"; break;
                    case 3: s += symbols ? r.pick(sym) : r.pick(lit); break;
                    case 4: s += sub(); break;
                    default: s += r.pick(lit);
                }
            }
            return "(" + s + ")";
        }
        default: { std::string s = "(" + sub() + r.pick(in); return s + sub() + ")"; }
    }
}
// ---------------------------------------------------------------- garbage for memory safety
static std::string garbage_line(Gen &g)
{
    Rng &r = g.r;
    static const Strs frag = { "sin(", "max(", "(", ")", ",", "+", "-", "*", "/", "^", "!", "%", "'", "$", "@", "C", "mod", "pi", "ans", "x", "y", "zqa", "1", "2.5", ".", "..", "0",
        "=", ";", "fold", " ", "\"", "#", "[", "]", "{", "}", "|", "\\", "~", "?", "<", ">", "->", "&", "\t", "\r", "\xc3\xa4", "\xff", "\x01", "sum(", "avg(", "var(", "deriv(", "f(", "f", "g", "rand(1,2)", "e", "sqrt(",
        "[x]", "[", "list", "root(", "log(", "ld(", "tan(", "frac(", "'", "nan", "inf", "1e5", "0x1", "999999999999999999999999", "fib(", "gcd(", "lcm(", "10^19", "(-10^19)", "10^400", "gamma(" };
    if (r.chance(0.12)) return wild(r, (int)r.range(1, 2), r.chance(0.4), true);
    std::string s;
    switch (r.below(9))
    {
        case 0: s = "table "; break;
        case 1: s = "clear "; break;
        case 2: s = "f(x,y)="; break;
        case 3: s = "g="; break;
        case 4: s = "load "; break;
        case 5: s = "help "; break;
        default: break;
    }
    long n = r.range(1, 12);
    for (long i = 0; i < n; i++) s += r.pick(frag);
    if (s.compare(0, 6, "table ") == 0)
    {
        // Bounds stay small: a table may be as long as it likes
        static const Strs bound = { "1", "2", "(1", "zqa", "", "3", "-1", "1/0", "sgn(ans)", "sqrt(-1)" };
        s = "table " + (r.chance(0.5) ? s.substr(6) : std::string("zqx+1"));
        for (char &c : s) if (c == ';') c = ',';
        s += ";" + r.pick(bound) + ";" + r.pick(bound) + ";" + (r.chance(0.7) ? "1" : r.pick(bound));
        if (r.chance(0.4)) { static const Strs f = { " fold x+y;0", " fold zqk;0", " fold x;zqk", " fold ;", " fold x", " fold x/0;1", ";;;" }; s += r.pick(f); }
        if (r.chance(0.1)) s.resize(r.below(s.size()));
    }
    if (s == "quit") s = "1";
    return s;
}
// Small changes of a valid line
static std::string mutate(Gen &g, std::string s)
{
    Rng &r = g.r;
    if (s.empty() || s.compare(0, 5, "table") == 0) return s;
    static const std::string chars = "()+-*/^,=@!%'; x1.#{}[]";
    long n = r.range(1, 3);
    for (long i = 0; i < n && !s.empty(); i++)
    {
        size_t p = r.below(s.size());
        switch (r.below(4))
        {
            case 0: s.erase(p, 1); break;
            case 1: s.insert(p, 1, chars[r.below(chars.size())]); break;
            case 2: s[p] = chars[r.below(chars.size())]; break;
            default: s.insert(p, s.substr(p, 1 + r.below(6))); break;
        }
    }
    if (s.size() > 400) s.resize(400);
    return s;
}
static bool risky(const std::string &s)
{
    // May be as long as it likes
    return s.find("table") != std::string::npos;
}

static void gen_C01(Gen &g)
{
    Rng &r = g.r;
    g.special = r.chance(0.4) ? 0.06 : 0;
    all_kinds(g);
    g.weights({ { K_EVAL, 10 }, { K_HIST, 25 }, { K_FOLD, 5 }, { K_RAND, 1 }, { K_LONG, 0 } });
    g.swarm(0.25);
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    long n = r.range(5, 60);
    if (r.chance(0.08))
    {
        // Very long history
        n = r.range(300, g.thorough ? 12000 : 2500);
        g.weights({ { K_TABLE, 0.1 }, { K_HELP, 0.02 }, { K_DEF, 0.1 }, { K_LOAD, 0.3 } });
    }
    Strs p = g.program(n);
    if (r.chance(0.07)) g.burst(p);
    if (r.chance(0.006)) g.flood(p, r.chance(0.5));
    // Walk through the whole history
    long k = std::min(g.hist, r.range(1, 25));
    for (long i = 0; i < k; i++)
    {
        p.push_back(strf("@%ld", r.chance(0.3) ? i : r.range(0, std::max(0l, g.hist - 1))));
        g.hist++;
    }
    p.push_back("ans");
    p.push_back(strf("@%ld", g.hist + r.range(-3, 3)));
    p.push_back("ans");
    if (r.chance(0.15)) g.to_args(p);
    g.sc.in = join_lines(p, true);
}

static void gen_C02(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_REJECT, 30 }, { K_LONG, 0 }, { K_DEF, 12 } });
    g.swarm(0.2);
    g.w[K_REJECT] = 25;
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    Strs p = g.program(r.range(5, 50));
    if (r.chance(0.05)) g.burst(p);
    g.probes(p);
    g.sc.in = join_lines(p, true);
}

static void gen_C03(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_DEF, 25 }, { K_FUN, 30 }, { K_CLEAR, 10 }, { K_CLEARALL, 0.7 }, { K_HELP, 2 }, { K_LONG, 0 }, { K_RAND, 0.5 } });
    g.swarm(0.2);
    g.w[K_DEF] = 25;
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    if (r.chance(0.2)) g.name_len = r.range(30, 300);
    long n = r.range(5, 60);
    if (r.chance(0.15)) { n = r.range(100, 400); g.weights({ { K_TABLE, 0.5 }, { K_LOADRS, 0.2 } }); } // many definitions
    Strs p = g.program(n);
    if (r.chance(0.08)) g.burst(p);
    g.probes(p);
    if (r.chance(0.15)) g.to_args(p);
    g.sc.in = join_lines(p, true);
}

static void gen_C04(Gen &g)
{
    Rng &r = g.r;
    g.weights({ { K_EVAL, 10 }, { K_SYM, 10 }, { K_LONG, 4 }, { K_BLANK, 4 }, { K_COMMENT, 5 }, { K_NUL, 2 }, { K_LOAD, 4 }, { K_HIST, 3 }, { K_REJECT, 2 }, { K_DEF, 2 }, { K_FUN, 2 }, { K_HELP, 0.3 } });
    g.swarm(0.25);
    g.big = r.chance(0.3);
    g.startup((int)r.pick(std::vector<long>{ 0, 4, 9 }));
    g.ambient();
    g.chunking("stdin");
    g.chunking("*");
    g.short_writes();
    Strs p = g.program(r.range(1, r.chance(0.1) ? 400 : 40));
    if (r.chance(0.05)) g.burst(p);
    if (r.chance(0.006)) g.flood(p, r.chance(0.3));
    if (r.chance(0.02))
    {
        // Very many lines
        Strs many;
        for (long i = 0, n = r.pick(std::vector<long>{ 2100, 4100, 4100, 8200 }); i < n; i++) many.push_back(i % 7 == 3 ? "zq" + g.base26(i) : r.chance(0.1) ? "" : strf("%ld", i));
        p.insert(p.begin() + r.below(p.size() + 1), many.begin(), many.end());
    }
    if (r.chance(0.2)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
    if (r.chance(0.3)) { for (auto &l : p) if (r.chance(0.05) && l.compare(0, 4, "load") && (l.empty() || l[0] != '#')) l = "  " + l; }
    g.sc.in = join_lines(p, r.chance(0.5));
}

static void gen_C05(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 8 }, { K_REJECT, 4 } });
    g.swarm(0.3);
    g.ambient();
    g.rule_files();
    if (r.chance(0.5))
    {
        // A: one program, several ways to enter it
        g.startup(-1);
        g.sc.knobs["modes"] = 1;
        if (r.chance(0.3)) g.w[K_REJECT] = 0.3;
        Strs p = g.program(r.range(2, 30));
        if (r.chance(0.06)) g.burst(p);
        if (r.chance(0.6)) g.probes(p);
        if (r.chance(0.2)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
        g.sc.in = join_lines(p, true);
        g.chunking("*");
        return;
    }
    // B: files that change or can not be opened
    g.startup((int)r.pick(std::vector<long>{ 0, 9 }));
    g.weights({ { K_RAND, 0 }, { K_HELP, 0 }, { K_LONG, 0 }, { K_LOADRS, 0 }, { K_LOAD, 15 } });
    g.max_nest = (int)r.range(1, 9);
    Strs p = g.program(r.range(3, 25));
    if (r.chance(0.06)) g.burst(p);
    if (r.chance(0.02)) g.flood(p, true);
    for (size_t i = 0; i < p.size() && i < 2000; i++) if (r.chance(0.1)) p.insert(p.begin() + i, g.sentinel());
    Strs files;
    for (auto &f : g.sc.files) if (f.second.find("RULESET") == std::string::npos) files.push_back(f.first);
    long kind = r.below(5);
    if (!files.empty() && kind <= 2)
    {
        long n = r.range(1, 3);
        for (long i = 0; i < n; i++)
        {
            const std::string &t = r.pick(files);
            const std::string &d = g.sc.files[t];
            std::string alt;
            for (long j = r.range(0, 4); j > 0; j--) alt += g.sentinel() + "\n";
            long when = r.range(1, 20);
            switch (r.below(6))
            {
                case 0: g.fault("replace", t, when, 0, alt); break;
                case 1: g.fault("append", t, when, 0, (d.empty() || d.back() == '\n' ? "" : "\n") + alt); break;
                case 2: g.fault("delete", t, when); break;
                case 3: g.fault("truncate", t, when, d.empty() ? 0 : (long)(d.rfind('\n', r.below(d.size())) + 1)); break;
                case 4: g.fault("overwrite", t, when, 0, alt); break;
                default: g.fault("fopen", t, r.range(0, 2), 0, r.chance(0.5) ? "EACCES" : "EMFILE"); break;
            }
        }
        // Load some of them again later
        for (long j = r.range(1, 3); j > 0; j--) { p.insert(p.begin() + r.below(p.size() + 1), "load " + r.pick(files)); }
        p.push_back(g.sentinel());
    }
    else if (kind == 3)
    {
        // Loads itself until no more file can be opened
        std::string a = g.path(), b = g.path();
        long via = r.range(0, 3); // Number of files between
        std::string first = a;
        for (long i = 0; i < via; i++)
        {
            g.sc.files[b] = r.chance(0.5) ? "1+1\nload " + first + "\nzqback\n" : "load " + first;
            first = b;
            b = g.path();
        }
        g.sc.files[a] = "zqin\n3+4\nload " + first + "\nzqout\n";
        bool twice = r.chance(0.15);
        if (twice) g.sc.files[a] += "load " + first + "\n";
        // Another file by the time it is read
        if (r.chance(0.3)) g.fault("replace", a, r.range(1, 30), 0, r.chance(0.5) ? "zqother\n5+6\n" : "zqother\nload no/such/file\n5+6\n");
        p.insert(p.begin() + r.below(p.size() + 1), "load " + a);
        p.push_back("zqend");
        g.fault("fdlimit", "", twice ? r.range(1, 7) : r.range(1, 60));
    }
    else
    {
        g.fault("fdlimit", "", r.range(1, 6));
        p.push_back("zqend");
    }
    g.chunking("*");
    g.sc.in = join_lines(p, r.chance(0.9));
}

static void gen_C06(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 10 }, { K_REJECT, 1.5 }, { K_LONG, 0.1 } });
    g.swarm(0.3);
    if (r.chance(0.35)) g.w[K_REJECT] = 0;
    g.startup(-1);
    g.rule_files();
    if (g.w[K_REJECT] == 0) g.rs_bad.clear();
    g.ambient();
    g.chunking("*");
    g.max_nest = (int)r.range(1, 6);
    Strs p = g.program(r.range(1, 25));
    if (r.chance(0.08))
    {
        if (r.chance(0.5)) g.burst(p, g.w[K_REJECT] != 0);
        else // Nothing else fails: an exact number of failures
        {
            p.clear();
            std::string l;
            do l = g.reject(false); while (l.find("nan") != std::string::npos);
            static const std::vector<long> n = { 255, 256, 256, 256, 257, 512, 1024, 128, 4096, 65536 };
            long k = r.pick(n);
            if (k == 65536) l = "1+";
            bool file = r.chance(0.3);
            for (long i = 0; i < k; i++) p.push_back(l);
            if (file) { std::string f = g.path(); g.sc.files[f] = join_lines(p, true); p = { "load " + f }; }
            p.push_back("1+1");
            if (r.chance(0.3)) p.push_back("quit");
            g.sc.in = join_lines(p, true);
            return;
        }
    }
    if (g.w[K_REJECT] == 0 && r.chance(0.6))
    {
        // One failing command somewhere, maybe within a file
        Strs files;
        for (auto &f : g.sc.files) if (f.second.find("RULESET") == std::string::npos) files.push_back(f.first);
        std::string l = g.reject();
        if (!files.empty() && r.chance(0.6))
        {
            std::string &d = g.sc.files[r.pick(files)];
            auto ls = split_lines(d);
            ls.insert(ls.begin() + r.below(ls.size() + 1), l);
            d = join_lines(ls, r.chance(0.7));
        }
        else p.insert(p.begin() + r.below(p.size() + 1), l);
    }
    if (r.chance(0.4))
    {
        Strs files;
        for (auto &f : g.sc.files) if (f.second.find("RULESET") == std::string::npos) files.push_back(f.first);
        if (!files.empty() && r.chance(0.6))
        {
            std::string &d = g.sc.files[r.pick(files)];
            auto ls = split_lines(d);
            ls.insert(ls.begin() + r.below(ls.size() + 1), "quit");
            d = join_lines(ls, r.chance(0.7));
        }
        else p.insert(p.begin() + r.below(p.size() + 1), "quit");
    }
    if (r.chance(0.2))
    {
        // Chain of nested loads with something at the bottom
        static const Strs ends = { "quit", "1/0", "1+1", "load no/such/file", "f=", "load simplification rules/missing" };
        std::string bottom = g.path();
        g.sc.files[bottom] = r.pick(ends) + "\n" + (r.chance(0.5) ? "quit\n" : "") + "2+2\n";
        for (long i = r.range(1, 9); i > 0; i--)
        {
            std::string n = g.path();
            g.sc.files[n] = std::string(r.chance(0.2) ? "1/0\n" : "zqdown\n") + "load " + bottom + "\nzqup\n";
            bottom = n;
        }
        p.insert(p.begin() + r.below(p.size() + 1), "load " + bottom);
    }
    if (r.chance(0.4) && !p.empty()) g.to_args(p);
    if (r.chance(0.1))
    {
        Strs files;
        for (auto &f : g.sc.files) if (f.first != RULESET_PATH) files.push_back(f.first);
        if (!files.empty()) { std::string t = r.pick(files); g.fault("eio", t, r.range(0, (long)g.sc.files[t].size()), 0, "EIO"); }
    }
    g.sc.in = join_lines(p, r.chance(0.7));
}

static void gen_C07(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LONG, 0.3 }, { K_RAND, 1 } });
    g.swarm(0.35);
    g.startup((int)r.pick(std::vector<long>{ 0, 0, 0, 4, 6, 9 }));
    g.rule_files();
    if (r.chance(0.7)) { g.sc.files.erase("rules/full"); g.rs_good.erase(std::remove(g.rs_good.begin(), g.rs_good.end(), "rules/full"), g.rs_good.end()); }
    g.ambient();
    g.chunking("*");
    Strs p = g.program(r.range(1, 14));
    if (r.chance(0.3)) { p.push_back("zqderiv+1"); p.push_back("1,2"); p.push_back("((1))"); }
    if (r.chance(0.3)) g.to_args(p);
    g.sc.in = join_lines(p, true);
    g.sc.tty = r.chance(0.3);
    // Positions are chosen when the number of allocations is known: a = -1, b = seed
    g.sc.knobs["oomseed"] = (long)r.below(1u << 30);
}

// Rules over lists of operands, each of which makes the expression smaller, and expressions for them
static std::string list_rules(Gen &g)
{
    static const Strs rr = { "sum([xs], x, [ys], x, [zs]) -> sum([xs], [ys], [zs])", "prod([xs], sum([ys]), [zs]) -> prod([xs],[zs])", "max([xs], max([ys])) -> max([xs],[ys])", "x+(y+z) -> x+z",
        "min(a,b,c,d,f,g,h,i,j,k) -> a", "min(a,b,c,d,f,g,h,i,j,k,l) -> a", "avg([xs], x) -> x WHERE count([xs]) > 2 ; type(x) == VAR", "avg([xs], x, y) -> avg([xs], y) WHERE equal(x, -y) || equal(y, -x)",
        "sum(x, y) -> x WHERE count(x, y) == 2 ; !equal(x, y)", "sum([xs], [ys], [zs], 0) -> sum([xs], [zs])", "prod([xs], x, [ys], [xs]) -> prod([xs], [ys])", "avg([xs]) -> [xs]", "max([xs]) -> 1+[xs]", "var([xs]) -> sum(sqrt([xs]))", "max([xs], x, [xs]) -> max([xs])", "sum(x) -> x", "prod() -> 1", "sinh(sum([xs])) -> sum([xs])",
        "max([xs]) -> min([xs]) WHERE type([xs]) == VAR", "min(x, [xs]) -> x WHERE type(x) == y", "avg(x, [xs]) -> x WHERE [xs] == 1", "var([xs], [ys], [zs], [a], [b], [c], [d], [f]) -> sum([xs])", "sum([xs], x, [ys]) -> x WHERE x", "cosh(x) -> x WHERE count() == 0", "prod(x, [xs]) -> x WHERE type(x, x)" };
    std::string t;
    long n = g.r.chance(0.3) ? g.r.range(8, 10) : 7;
    for (long s = 0; s < n; s++)
    {
        t += "RULESET\n";
        for (long i = g.r.range(0, 3); i > 0; i--) t += g.r.pick(rr) + "\n";
    }
    return t;
}
static std::string list_expr(Gen &g, int depth)
{
    static const Strs f = { "sum", "prod", "max", "min", "avg", "var" }, leaf = { "zqa", "zqb", "zqc", "0", "1", "2.5", "-zqa", "-zqb", "zqa+(zqb+zqc)", "sinh(sum(zqa,1))", "cosh(zqa)" };
    std::string s = g.r.pick(f) + "(";
    long n = g.r.chance(0.1) ? g.r.range(8, 12) : g.r.range(0, 6);
    for (long i = 0; i < n; i++) s += (i ? "," : "") + (depth < 2 && g.r.chance(0.15) ? list_expr(g, depth + 1) : g.r.pick(leaf));
    return s + ")";
}

static void gen_C08(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LONG, 0.3 }, { K_RAND, 1 }, { K_NUL, 1 }, { K_REJECT, 10 } });
    g.swarm(0.3);
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    Strs p = g.program(r.range(2, 30));
    if (r.chance(0.04)) g.burst(p);
    if (r.chance(0.004))
    {
        // A very long name
        std::string n(r.range(100000, 200000), (char)('a' + r.below(26)));
        std::string m = n + "a";
        p.insert(p.begin() + r.below(p.size() + 1), n + "=" + g.lit());
        if (r.chance(0.3)) p.push_back(n + "+1");
        if (r.chance(0.3)) p.push_back(m + "(zqp)=zqp");
        if (r.chance(0.7)) p.push_back(r.chance(0.5) ? "clear" : "clear " + n);
    }
    // Strew in garbage
    double rate = r.chance(0.3) ? 0 : 0.1 + 0.4 * (double)r.below(100) / 100;
    Strs q;
    for (auto &l : p)
    {
        if (r.chance(rate))
        {
            std::string s = r.chance(0.5) ? garbage_line(g) : mutate(g, l);
            if (s != "quit" && (!risky(s) || s.compare(0, 6, "table ") == 0)) q.push_back(s);
        }
        if (r.chance(0.95)) q.push_back(l);
    }
    if (r.chance(0.2))
    {
        g.sc.files["rules/list"] = list_rules(g);
        for (long i = r.range(1, 6); i > 0; i--) q.insert(q.begin() + r.below(q.size() + 1), list_expr(g, 0));
        q.insert(q.begin() + r.below(q.size() / 2 + 1), "load simplification rules/list");
    }
    if (r.chance(0.5))
    {
        // Rulesets and files with garbage
        for (auto &f : g.sc.files)
        {
            if (!r.chance(0.3)) continue;
            auto ls = split_lines(f.second);
            for (long i = r.range(1, 3); i > 0; i--)
            {
                std::string s;
                if (f.second.find("RULESET") != std::string::npos)
                {
                    static const Strs rr = { "RULESET", "x -> y", "sinh(x) -> x WHERE type(x) == VAR", "sinh(x) -> x WHERE", " -> ", "->", "sinh(x)->", "a WHERE b -> c", "[x] -> [y]", "sum([x]) -> x", "x WHERE x == 1 AND x > 2 -> 1", "sinh(x) -> x ; x", "# RULESET",
                        "sum([xs], x, [xs]) -> x", "foo(x) -> x", "sinh(x -> x", "sinh(cosh(x)+y) -> x+y+z", "sinh(x) -> cosh(x) WHERE type(x) == CONST AND x < 0", "a+b -> b WHERE a == 0" };
                    static const Strs safe = { "RULESET", "sinh(x)->", "->", " -> ", "a WHERE b -> c", "sinh(x -> x", "sinh(x) -> x WHERE", "foo(x) -> y", "[x] -> [y]", "# RULESET", "sinh(x) -> x+q", "# ->" };
                    s = r.chance(0.8) ? r.pick(safe) : "    tanh(x) -> x+1";
                    (void)rr;
                }
                else s = r.chance(0.5) || ls.empty() ? garbage_line(g) : mutate(g, r.pick(ls));
                if (s == "quit" || (risky(s) && s.compare(0, 6, "table ") != 0)) continue;
                ls.insert(ls.begin() + r.below(ls.size() + 1), s);
            }
            f.second = join_lines(ls, r.chance(0.8));
        }
    }
    // Failing and truncated files
    Strs files;
    for (auto &f : g.sc.files) files.push_back(f.first);
    if (!files.empty() && r.chance(0.4))
    {
        std::string t = r.pick(files);
        if (r.chance(0.5)) g.fault("eio", t, g.position(g.sc.files[t]), r.chance(0.5) ? 0 : r.range(1, 2), g.eio_data());
        else g.fault("truncate", t, r.range(1, 8), g.position(g.sc.files[t]));
    }
    if (!files.empty() && r.chance(0.1)) g.fault("fopen", r.pick(files), r.range(0, 2), 0, "EACCES");
    if (r.chance(0.1)) g.fault("fdlimit", "", r.range(0, 3));
    if (r.chance(0.1)) g.fault("outerr", r.chance(0.5) ? "stdout" : "stderr", r.range(0, 200), r.chance(0.5) ? -1 : r.range(1, 5), "ENOSPC");
    if (r.chance(0.15)) q.insert(q.begin() + r.below(q.size() + 1), "quit");
    if (r.chance(0.15) && !q.empty()) { g.to_args(q); for (auto &a : g.sc.args) a = a.c_str(); }
    g.sc.in = join_lines(q, r.chance(0.8));
    if (r.chance(0.1)) g.fault("eio", "stdin", g.position(g.sc.in), 0, g.eio_data());
    g.sc.tty = r.chance(0.25);
    if (g.sc.tty) { for (size_t i = 0; i < g.sc.faults.size(); i++) if (g.sc.faults[i].kind == "eio" && g.sc.faults[i].target == "stdin") g.sc.faults.erase(g.sc.faults.begin() + i--); }
}

static void gen_C09(Gen &g)
{
    Rng &r = g.r;
    g.weights({ { K_LOADRS, 10 }, { K_MARK, 14 }, { K_DEF, 3 }, { K_FUN, 4 }, { K_EVAL, 2 }, { K_CLEAR, 1 }, { K_LOAD, 1 }, { K_REJECT, 1 } });
    g.swarm(0.2);
    g.w[K_LOADRS] = 10;
    g.w[K_MARK] = 12;
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    Strs p = g.program(r.range(3, 25));
    if (r.chance(0.03)) g.burst(p);
    Strs rs = g.rs_good;
    if (g.sc.files.count(RULESET_PATH)) rs.push_back(RULESET_PATH);
    if (r.chance(0.6))
    {
        std::string t = r.pick(rs);
        const std::string d = g.sc.files[t];
        long nth = t == RULESET_PATH ? 0 : r.range(0, 2);
        switch (r.below(6))
        {
            case 0: case 1: case 2: g.fault("eio", t, g.position(d), nth, g.eio_data(false)); break;
            case 3: g.fault("fopen", t, nth, 0, r.chance(0.3) ? "EACCES" : r.chance(0.5) ? "EMFILE" : "ENOENT"); break;
            case 4: g.fault("truncate", t, r.range(1, 12), (long)d.rfind("RULESET")); break;
            default: g.fault(r.chance(0.5) ? "replace" : "delete", t, r.range(1, 12), 0, g.tiny()); break;
        }
    }
    // A function that bears the name of a parameter in the patterns of the program
    if (r.chance(0.3))
    {
        static const Strs n = { "x(a)=a+a", "y=4", "z(b)=b", "a=1", "x=7" };
        std::string l = r.pick(n);
        std::string name = l.substr(0, l.find_first_of("(="));
        if (g.rules != 2 && !g.is_def(name) && !g.is_def("b"))
        {
            bool full = false;
            for (auto &q : p) full |= q.find("full") != std::string::npos;
            if (!full) { p.insert(p.begin() + r.below(p.size() + 1), l); p.push_back(name == "x" && l[1] == '(' ? "x(21)" : name == "z" ? "z(3)" : name); }
        }
    }
    for (auto &m : g_markers) { p.push_back(m + "(zqa)"); if (r.chance(0.5)) p.push_back(m + (r.chance(0.5) ? "(zqa+1)" : "(sinh(zqa))")); }
    p.push_back("zqa+zqa");
    g.sc.in = join_lines(p, true);
}

static void gen_C10(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.startup(-1);
    g.rule_files();
    bool chance = r.chance(0.6);
    if (chance) g.weights({ { K_RAND, 25 }, { K_HIST, 12 }, { K_FUN, 12 } });
    g.swarm(0.25);
    if (chance) g.w[K_RAND] = 20;
    g.ambient();
    for (auto &f : g.sc.faults) if (f.kind == "rng") { f.a = (long)r.below(5); f.b = (long)r.below(1u << 30); }
    if (r.chance(0.1)) g.fault("notime", "", 0);
    g.chunking("*");
    Strs p = g.program(r.range(3, 40));
    if (r.chance(0.5)) g.probes(p);
    g.sc.in = join_lines(p, true);
}

static void gen_C11(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 6 }, { K_LONG, 0.3 }, { K_RAND, 0.5 } });
    g.swarm(0.3);
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.sc.knobs["outbuf"] = 0;
    for (auto &f : g.sc.files) (void)f;
    Strs p = g.program(r.range(2, 30));
    if (r.chance(0.04)) g.burst(p);
    if (r.chance(0.3)) g.probes(p);
    if (r.chance(0.15)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
    if (r.chance(0.3) && p.size() > 3)
    {
        g.to_args(p);
        if (r.chance(0.8) && std::find(g.sc.args.begin(), g.sc.args.end(), "-i") == g.sc.args.end()) g.sc.args.insert(g.sc.args.begin(), "-i");
    }
    else if (r.chance(0.2)) g.sc.args.push_back("-q");
    g.sc.in = join_lines(p, r.chance(0.8));
    if (r.chance(0.3)) { for (auto &l : p) if (r.chance(0.1)) l = std::string(r.range(1, 3), ' ') + l; g.sc.in = join_lines(p, r.chance(0.8)); }
    // Hang-up at any byte
    if (r.chance(0.5)) g.sc.in.resize(g.position(g.sc.in));
    g.sc.tty = true;
    Strs files;
    for (auto &f : g.sc.files) if (f.first != RULESET_PATH && f.second.find("RULESET") == std::string::npos) files.push_back(f.first);
    if (!files.empty() && r.chance(0.25)) { std::string t = r.pick(files); g.fault(r.chance(0.5) ? "eio" : "fopen", t, r.range(0, 2), 0, "EIO"); }
    if (r.chance(0.1)) g.fault("fdlimit", "", r.range(0, 2));
}

static void gen_C12(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 12 }, { K_RAND, 0 }, { K_REJECT, 1.5 }, { K_HELP, 0.2 }, { K_LONG, 0.5 } });
    g.swarm(0.3);
    g.w[K_LOAD] = 10;
    g.startup(-1);
    g.rule_files();
    if (r.chance(0.6)) g.w[K_REJECT] = 0;
    g.ambient();
    g.chunking("*");
    g.max_nest = (int)r.range(1, 5);
    Strs p = g.program(r.range(2, 20));
    if (r.chance(0.04)) g.burst(p);
    p.push_back("zqlast");
    g.sc.in = join_lines(p, r.chance(0.8));
    Strs files, named;
    std::string all = g.sc.in;
    for (auto &f : g.sc.files) all += f.second;
    for (auto &f : g.sc.files)
    {
        files.push_back(f.first);
        if (f.first == RULESET_PATH || all.find("load " + f.first + "\n") != std::string::npos || all.find("load simplification " + f.first + "\n") != std::string::npos) named.push_back(f.first);
    }
    if (r.chance(0.9)) files = named;
    long n = r.chance(0.7) ? 1 : r.range(1, 3);
    for (long i = 0; i < n; i++)
    {
        if (files.empty() || r.chance(0.35)) g.fault("eio", "stdin", g.position(g.sc.in), 0, g.eio_data());
        else
        {
            std::string t = r.pick(files);
            g.fault("eio", t, g.position(g.sc.files[t]), r.chance(0.85) ? 0 : r.range(1, 2), g.eio_data());
        }
    }
}

static void gen_C13(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 6 }, { K_RAND, 1 } });
    g.swarm(0.3);
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    Strs p = g.program(r.range(2, 30));
    if (r.chance(0.04)) g.burst(p);
    if (r.chance(0.3)) g.probes(p);
    if (r.chance(0.2)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
    if (r.chance(0.2)) g.to_args(p);
    g.sc.in = join_lines(p, true);
    g.sc.tty = r.chance(0.25);
    static const Strs errs = { "ENOSPC", "EPIPE", "EIO", "EAGAIN" };
    bool any = false;
    for (const char *t : { "stdout", "stderr" })
    {
        if (r.chance(0.35)) { g.fault("outshort", t, r.chance(0.3) ? 1 : r.range(1, 300), (long)r.below(100000)); any |= t[3] == 'o'; }
        if (r.chance(0.5)) { g.fault("outerr", t, r.chance(0.2) ? 0 : r.range(0, r.chance(0.6) ? 60 : 600), r.chance(0.5) ? -1 : r.range(1, 6), r.pick(errs)); any |= t[3] == 'o'; }
    }
    if (!any && r.chance(0.8)) g.fault("outerr", "stdout", r.range(0, r.chance(0.6) ? 20 : 300), -1, r.pick(errs));
}

static void gen_C14(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    // Nothing in a cycle leaves anything behind
    g.weights({ { K_EVAL, 0 }, { K_HIST, 0 }, { K_FUN, 0 }, { K_FOLD, 0 }, { K_CLEAR, 0 }, { K_CLEARALL, 0 }, { K_DEF, 0 }, { K_LOADRS, 0 }, { K_TABLE, 4 }, { K_LOAD, 6 }, { K_REJECT, 25 }, { K_MARK, 5 }, { K_SYM, 8 }, { K_HELP, 0.3 }, { K_LONG, 0.2 } });
    g.startup(-1);
    g.rule_files();
    g.ambient();
    Strs warm;
    {
        auto w = g.w;
        g.w.clear();
        g.weights({ { K_EVAL, 5 }, { K_DEF, 5 }, { K_HIST, 2 } });
        for (long i = r.range(0, 8); i > 0; i--) g.add(warm, g.max_nest);
        g.w = w;
    }
    g.swarm(0.3);
    auto defs0 = g.defs;
    Strs c;
    long n = r.range(1, 10);
    for (long i = 0; i < n; i++)
    {
        switch (r.below(6))
        {
            case 5:
            {
                // Names that are never used again: \x02 is replaced by another text of equal length in every cycle
                static const Strs one = { "zq\x02", "1+vq\x02", "vq\x02(3)", "vq\x02(zqa)", "load no/\x02", "load simplification no/\x02", "clear vq\x02", "vq\x02=1/0", "vq\x02(zqp)=zqp+zqother", "vq\x02=vq\x02", "vq\x02(zq\x02,zq\x02)=1",
                    "table vq\x02;1;2;1", "#\x02", "\x02?", "max(zq\x02,zq\x02,1)" };
                if (r.chance(0.4)) { c.push_back(r.pick(one)); break; }
                Strs names;
                for (long j = r.range(1, 4); j > 0; j--)
                {
                    static const Strs pre = { "vq\x02", "v\x02\x02", "\x02\x02vq", "vqlongername\x02", "vqq\x02\x02\x02", "V_\x02", "vqq\x02" };
                    std::string nm = r.pick(pre);
                    if (std::find(names.begin(), names.end(), nm) != names.end()) continue;
                    c.push_back(r.chance(0.4) || g.rules >= 2 ? nm + "=" + g.intlit() : nm + (r.chance(0.5) ? "(zqp)=zqp+" + g.intlit() : "(zqp,zqq)=zqp+zqq"));
                    names.push_back(nm);
                    if (r.chance(0.3)) g.add(c, 0);
                }
                if (defs0.empty() && r.chance(0.3)) { c.push_back("clear"); break; }
                while (!names.empty()) { size_t j = r.below(names.size()); c.push_back("clear " + names[j]); names.erase(names.begin() + j); }
                break;
            }
            case 0:
            {
                // Definition that is removed again
                std::string name = g.fresh_name();
                if (g.is_def(name)) break;
                int a = g.arity();
                c.push_back(g.def_line(name, a));
                g.defs.push_back({ name, a });
                if (r.chance(0.5)) g.add(c, 0);
                c.push_back("clear " + name);
                g.undef(name);
                break;
            }
            case 1:
            {
                if (g.rs_good.empty()) break;
                // Load of a ruleset, the same one in every cycle
                if (!r.chance(0.6)) { c.push_back("load simplification " + (g.rs_bad.empty() ? std::string("rules/missing") : r.pick(g.rs_bad))); break; }
                c.push_back("load simplification " + g.rs_good[0]);
                break;
            }
            default: g.add(c, 0);
        }
    }
    long reps = r.range(4, g.thorough ? 60 : 16);
    Strs p = warm;
    for (long i = 0; i < reps; i++)
    {
        p.push_back("#cycle");
        std::string code;
        for (long j = 0, v = i * 5 + 3; j < 3; j++, v = v / 23 + i) code += (char)('a' + v % 23);
        for (auto l : c)
        {
            for (size_t a; (a = l.find('\x02')) != std::string::npos;) l.replace(a, 1, code);
            p.push_back(l);
        }
    }
    p.push_back("#cycle");
    Strs files;
    for (auto &f : g.sc.files) if (f.first != RULESET_PATH) files.push_back(f.first);
    for (long i = r.below(3); i > 0 && !files.empty(); i--)
    {
        std::string t = r.pick(files);
        if (r.chance(0.7)) g.fault("eio", t, g.position(g.sc.files[t]), 0, g.eio_data());
        else g.fault("fopen", t, 0, 0, "EACCES");
    }
    if (r.chance(0.1)) g.fault("fdlimit", "", r.range(0, 2));
    g.chunking("*");
    g.sc.in = join_lines(p, true);
    g.sc.tty = r.chance(0.2);
}

static void gen_C17(Gen &g)
{
    Rng &r = g.r;
    if (r.chance(0.35))
    {
        // Every command comes to its end
        g.sc.knobs["term"] = 1;
        g.startup(-1);
        g.ambient();
        bool symbols = r.chance(0.7), extreme = r.chance(0.4);
        Strs p;
        if (symbols && !r.chance(0.1)) { g.sc.files["rules/full"] = full_ruleset(); p.push_back("load simplification rules/full"); }
        for (long i = r.range(3, 12); i > 0; i--)
        {
            if (extreme && r.chance(0.15)) // tables whose step is lost
            {
                long a = 1l << r.range(53, 61), u = a >> 52;
                if (r.chance(0.5)) a = -a;
                if (r.chance(0.3))
                {
                    // Bounds that are not numbers
                    static const Strs b = { "ln(-1)", "10^400-10^400", "10^400", "-10^400", "0*10^400", "gcd(10^400,3)", "sqrt(10^400)", "asin(2)", "1", "-3", "10^17" };
                    p.push_back("table zqx;" + r.pick(b) + ";" + (r.chance(0.7) ? "ln(-1)" : r.chance(0.5) ? "1" : "-3") + ";" + (r.chance(0.3) ? "-1" : r.chance(0.3) ? "asin(2)" : r.chance(0.3) ? "10^400" : "1"));
                    continue;
                }
                p.push_back(strf("table zqx;%ld;%ld;%ld", a, a + u * r.range(-20, 20), std::max(1l, u / (1l << r.range(0, 4)))));
                continue;
            }
            p.push_back(wild(r, (int)r.range(1, symbols ? 3 : 4), symbols, extreme));
        }
        g.sc.in = join_lines(p, true);
        return;
    }
    gen_C14(g);
    Strs files;
    for (auto &f : g.sc.files) files.push_back(f.first);
    for (long i = r.chance(0.6) ? r.range(1, 3) : 0; i > 0; i--)
    {
        switch (r.below(5))
        {
            case 0: if (!g.sc.tty) g.fault("eio", "stdin", g.position(g.sc.in), 0, g.eio_data()); break;
            case 1: if (!files.empty()) { std::string t = r.pick(files); g.fault("eio", t, g.position(g.sc.files[t]), 0, g.eio_data()); } break;
            case 2: g.fault("outerr", r.chance(0.7) ? "stdout" : "stderr", r.range(1, 60), r.chance(0.5) ? -1 : r.range(1, 8), r.pick(Strs{ "EIO", "EPIPE", "ENOSPC", "EAGAIN", "EINTR" })); break;
            case 3: g.fault("outshort", r.chance(0.7) ? "stdout" : "stderr", r.range(1, 40), r.range(1, 60)); break;
            default: g.sc.in.erase(g.sc.in.size() - r.below(std::min(g.sc.in.size(), (size_t)20))); break;
        }
    }
}

static void gen_C15(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 14 }, { K_LOADRS, 8 }, { K_LONG, 0.2 }, { K_RAND, 0.3 } });
    g.swarm(0.3);
    g.w[K_LOAD] = 12;
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    g.max_nest = (int)r.range(1, 5);
    Strs p = g.program(r.range(2, 20));
    // Paths that mean something elsewhere, but not here; some exist, some have a neighbour that would do
    static const Strs odd = { "~/prog", "$HOME/prog", "${HOME}", "*", "prog*", "p?", "[p]", "../prog", "./prog", "/sim/../prog", "-", "--", "/dev/stdin", "/dev/null", "/dev/tty", "/proc/self/environ", "|ls", "ls|", ">out", "<in", "http://example.org/x", "file:///x",
        "a;b", "a&&b", "`id`", "$(id)", "\"q\"", "'q'", "x.txt ", " x", "x\\y", "%s%n", "dir/", "/", ".", "..", "a,b", "a:b", "simplification", "simplifications", "con", "x#y", "# x", "\xc3\xa4", "prog.ccalc", "ruleset", "/sim/etc/simplification.ruleset", "/sim/etc", "history", ".ccalc_history", ".ccalcrc" };
    static const Strs near_ = { ".ccalc", ".txt", ".calc", ".bak", "~", ".ruleset", "/" };
    for (long i = r.range(0, 6); i > 0; i--)
    {
        std::string n = r.chance(0.85) ? r.pick(odd) : g.path();
        bool rs = r.chance(0.25);
        std::string content = rs ? g.tiny() : join_lines(Strs{ g.sentinel(), r.chance(0.3) ? g.reject() : g.sentinel() }, true);
        if (n != RULESET_PATH)
        {
            if (r.chance(0.5)) g.sc.files[n] = content;
            else
            {
                // Neighbours only
                if (r.chance(0.7)) g.sc.files[n + r.pick(near_)] = content;
                if (r.chance(0.2) && n.size() > 1) g.sc.files[n.substr(n[0] == ' ' ? 1 : 0, n.size() - 1)] = content;
                if (r.chance(0.2)) g.sc.files["/sim/home/" + n] = content;
                if (r.chance(0.2)) g.sc.files["/sim/etc/" + n] = content;
            }
        }
        else if (!rs) continue;
        std::string l = (rs ? "load simplification " : "load ") + n;
        if (!rs && n.compare(0, 15, "simplification ") == 0) continue;
        p.insert(p.begin() + r.below(p.size() + 1), l);
    }
    // Files nobody asked for
    for (const char *n : { ".ccalcrc", "/sim/home/.ccalcrc", "ccalc.rc", "init", "/sim/etc/init", "simplification.ruleset", ".ccalc_history", "rules/good0.ruleset" })
        if (r.chance(0.15)) g.sc.files[n] = strstr(n, "ruleset") ? g.tiny() : "zqnobodyasked\n";
    if (r.chance(0.35)) p.insert(p.begin() + r.below(p.size() + 1), r.chance(0.5) ? "help" : "help operators");
    if (r.chance(0.25)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
    if (r.chance(0.3)) g.to_args(p);
    Strs files;
    for (auto &f : g.sc.files) files.push_back(f.first);
    if (!files.empty() && r.chance(0.4))
    {
        std::string t = r.pick(files);
        switch (r.below(4))
        {
            case 0: g.fault("fopen", t, r.range(0, 2), 0, r.chance(0.5) ? "EACCES" : r.chance(0.5) ? "EMFILE" : "ENOENT"); break;
            case 1: g.fault("delete", t, r.range(1, 12)); break;
            case 2: g.fault("eio", t, g.position(g.sc.files[t]), 0, g.eio_data()); break;
            default: g.fault("fdlimit", "", r.range(0, 3));
        }
    }
    g.sc.in = join_lines(p, r.chance(0.8));
    g.sc.tty = r.chance(0.3);
}

static void gen_C16(Gen &g)
{
    Rng &r = g.r;
    all_kinds(g);
    g.weights({ { K_LOAD, 2 }, { K_RAND, 0.2 }, { K_LONG, 0.1 }, { K_REJECT, 2 } });
    g.swarm(0.3);
    g.startup(-1);
    g.rule_files();
    g.ambient();
    g.chunking("*");
    static const Strs known = { "-i", "--interactive", "-q", "--quiet" };
    static const Strs info = { "-h", "--help", "-v", "--version" };
    static const Strs unknown = { "", "-", "--", "---", "i", "interactive", "-ii", "-iq", "-qi", "-I", "-Q", "-C", "-H", "-V", "-x", "-1", "--i", "--in", "--inter", "--interactiv", "--interactive1", "--interactive ", " --interactive", "--interactive=1", "--Interactive", "--q", "--quie", "--quietly", "--quiet=",
        "--he", "--helpme", "--versio", "--versions", "--command", "--commands=1+1", "--commandss", "-c ", " -c", "-cc", "-c1+1", "--c", "1+1", "quit", "help", "license", "clear", "load prog0", "f(x)=x", "#", "/sim/etc/simplification.ruleset", "prog0", "rules/good0", "-\xc3\xa4", "\xff", "%s%s%n", "-i\n", "-h\t",
        "-interactive", "-quiet", "-help", "-commands", "--silent", "-s", "-?", "/?", "-e", "-f", "--no-interactive", "--noquiet", "-n" };
    static const Strs like = { "-i", "-q", "-c", "--commands", "-h", "-v", "--interactive", "--quiet", "--help", "--version", "-1", "--1", "- 1", "-(2)", "-pi", "" };
    Strs &a = g.sc.args;
    bool infos = r.chance(0.2), bad = r.chance(0.25), cmds = r.chance(0.6);
    for (long i = r.range(0, r.chance(0.1) ? 12 : 4); i > 0; i--) a.push_back(r.pick(known));
    if (infos) for (long i = r.range(1, 2); i > 0; i--) a.insert(a.begin() + r.below(a.size() + 1), r.pick(info));
    if (bad)
    {
        std::string u = r.chance(0.9) ? r.pick(unknown) : r.chance(0.5) ? "-" + std::string(r.range(2, 3000), 'i') : r.pick(known) + std::string(1, (char)r.range(33, 126));
        a.insert(a.begin() + r.below(a.size() + 1), u);
    }
    Strs p = g.program(r.range(1, 12));
    if (cmds)
    {
        a.push_back(r.chance(0.5) ? "-c" : "--commands");
        long n = r.range(0, std::min((long)p.size(), r.chance(0.1) ? 12l : 5l));
        for (long i = 0; i < n; i++)
        {
            if (r.chance(0.2)) a.push_back(r.pick(like));
            a.push_back(p[i]);
        }
        if (r.chance(0.2)) a.push_back(r.pick(like));
        p.erase(p.begin(), p.begin() + n);
        if (r.chance(0.12)) a.push_back("quit");
        if (r.chance(0.12)) a.push_back(g.reject());
        if (r.chance(0.2)) a.push_back(g.sentinel());
    }
    if (r.chance(0.1)) p.insert(p.begin() + r.below(p.size() + 1), "quit");
    p.push_back(g.sentinel());
    g.sc.in = r.chance(0.9) ? join_lines(p, r.chance(0.8)) : "";
    if (r.chance(0.05)) g.fault("eio", "stdin", g.position(g.sc.in), 0, "EIO");
    g.sc.tty = r.chance(0.3);
    if (g.sc.tty) { for (size_t i = 0; i < g.sc.faults.size(); i++) if (g.sc.faults[i].kind == "eio") g.sc.faults.erase(g.sc.faults.begin() + i--); }
}

std::string variant_of(const std::string &prop, uint64_t seed)
{
    Rng r(mix_seed(seed, 77));
    uint64_t x = r.below(100);
    if (prop == "C08") return x < 75 ? "asan" : x < 90 ? "norl" : "plain";
    if (prop == "C11") return x < 60 ? "plain" : x < 85 ? "norl" : "asan";
    if (prop == "C07") return x < 60 ? "plain" : x < 90 ? "asan" : "norl";
    return x < 80 ? "plain" : x < 93 ? "asan" : "norl";
}

static Scenario generate_once(const std::string &prop, uint64_t seed, uint64_t content, bool thorough)
{
    Gen g(content);
    g.sc.prop = prop;
    g.sc.seed = seed;
    g.sc.variant = variant_of(prop, seed);
    g.thorough = thorough;
    static const std::map<std::string, void (*)(Gen&)> m = { { "C01", gen_C01 }, { "C02", gen_C02 }, { "C03", gen_C03 }, { "C04", gen_C04 }, { "C05", gen_C05 }, { "C06", gen_C06 }, { "C07", gen_C07 },
        { "C08", gen_C08 }, { "C09", gen_C09 }, { "C10", gen_C10 }, { "C11", gen_C11 }, { "C12", gen_C12 }, { "C13", gen_C13 }, { "C14", gen_C14 }, { "C15", gen_C15 }, { "C16", gen_C16 }, { "C17", gen_C17 } };
    m.at(prop)(g);
    // Runs to be compared may ask for the time at different moments: only C10 varies what follows from it
    if (prop != "C10") g.sc.knobs["noseed"] = 1;
    return g.sc;
}

Scenario generate(const std::string &prop, uint64_t seed, bool thorough)
{
    Scenario sc;
    for (int i = 0; i < 6; i++)
    {
        sc = generate_once(prop, seed, i == 0 ? seed : mix_seed(seed, (uint64_t)i), thorough);
        // Functions using functions may grow beyond all bounds when expanded
        Model m(sc);
        m.exec();
        if (!m.too_big) break;
    }
    return sc;
}
