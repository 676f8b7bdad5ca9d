#include "model.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <fstream>
#include <functional>
#include <sstream>

const std::vector<std::string> g_markers = { "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "gamma" };

const std::set<std::string> &builtin_functions()
{
    static const std::set<std::string> s = { "deriv", "exp", "root", "sqrt", "log", "ln", "ld", "lg", "sin", "cos", "tan", "asin",
        "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "max", "min", "abs", "ceil", "floor", "round", "trunc",
        "frac", "sgn", "sum", "prod", "avg", "gcd", "lcm", "rand", "fib", "gamma", "var", "pi", "e", "phi", "clight", "csound", "ans" };
    return s;
}
static const std::map<std::string, int> &known_arity() // functions the model evaluates, -1: any number
{
    static const std::map<std::string, int> m = { { "sqrt", 1 }, { "max", -1 }, { "min", -1 }, { "abs", 1 }, { "ceil", 1 }, { "floor", 1 },
        { "round", 1 }, { "trunc", 1 }, { "sgn", 1 }, { "sum", -1 }, { "prod", -1 }, { "rand", 2 }, { "sin", 1 }, { "cos", 1 }, { "ln", 1 }, { "root", 2 },
        { "sinh", 1 }, { "cosh", 1 }, { "tanh", 1 }, { "asinh", 1 }, { "acosh", 1 }, { "atanh", 1 }, { "gamma", 1 },
        { "exp", 1 }, { "log", 2 }, { "ld", 1 }, { "lg", 1 }, { "tan", 1 }, { "asin", 1 }, { "acos", 1 }, { "atan", 1 }, { "frac", 1 }, { "avg", -1 }, { "var", -1 }, { "gcd", 2 }, { "lcm", 2 }, { "fib", 1 }, { "deriv", 2 } };
    return m;
}
static bool constant_value(const std::string &n, double *v)
{
    if (n == "pi") *v = 3.14159265359;
    else if (n == "e") *v = 2.71828182846;
    else if (n == "phi") *v = 1.61803398874;
    else if (n == "clight") *v = 299792458;
    else if (n == "csound") *v = 343.2;
    else return false;
    return true;
}

const std::vector<std::pair<std::string, int>> g_conds =
{
    { "type(x) == VAR", 1 }, { "type(x) == OP", 2 }, { "type(x) == CONST", 4 }, { "type(x) != VAR", 6 }, { "type(x) != OP", 5 }, { "type(x) != CONST", 3 },
    { "TRUE", 7 }, { "FALSE", 0 }, { "!FALSE", 7 }, { "!TRUE", 0 }, { "2 > 1", 7 }, { "1 >= 2", 0 }, { "1 < 2", 7 }, { "2 <= 1", 0 }, { "1+1 == 2", 7 }, { "1 != 1", 0 },
    { "type(x) == VAR || type(x) == OP", 3 }, { "FALSE || type(x) == VAR", 1 }, { "equal(x, x)", 7 }, { "!equal(x, x)", 0 }, { "x > 0", 0 }, { "x == x", 0 },
    { "count(x) == 1", 7 }, { "count(x, 1) == 1", 0 }, { "count() == 0", 7 }, { "count(x, x, x) > 2 || FALSE", 7 }, { "!equal(count(x), x)", 7 },
    { "type(zqo) == VAR", -1 }, { "equal(x, zqo)", -1 }, { "zqo == zqo", -1 }, { "count([x]) == 1", -1 },
    { "1 <= 2 || FALSE", 7 }, { "FALSE || 1 <= 2", 7 }, { "FALSE || 2 >= 3", 0 }, { "3 >= 2 || FALSE", 7 }, { "FALSE || 2 > 1", 7 }, { "FALSE || 1 < 2", 7 }, { "1 == 1 || FALSE", 7 }, { "FALSE || 1 == 1", 7 }, { "FALSE || 1 != 1", 0 }, { "2 != 1 || FALSE", 7 },
    { "type(x) == type(x)", 7 }, { "type(x) != OP || FALSE", 5 }, { "equal(x, x) == TRUE", 7 }, { "equal(x+1, x+1)", 7 }, { "equal(x, x+1)", 0 }, { "equal(x+1, 1+x)", 0 }, { "count(x, x) == 2", 7 }, { "count() >= 0", 7 }, { "!equal(x, x+0)", 7 }, { "3-1 == 2", 7 }, { "2*2 >= 4", 7 },
    { "2 < 1 || 3 < 2", 0 }, { "TRUE || TRUE", 7 }, { "FALSE || FALSE", 0 }, { "!(1 == 2)", 7 }, { "(1 == 1) == TRUE", 7 }, { "1 < 2 == TRUE", 7 }, { "1 >= 1", 7 }, { "1 > 1", 0 }, { "1 <= 1", 7 }, { "1 < 1", 0 }, { "count(x, x, x, x, x, x, x, x, x, x) == 10", 7 },
    { "equal(sum(x, 1), sum(x, 1))", 7 }, { "type(sum(x, 1)) == OP", 7 }, { "type(7) == CONST", 7 }, { "type(x+x) == OP", 7 }, { "type(x)", 7 }, { "0", 0 }, { "5", 7 }, { "!(type(x) == VAR)", 6 }, { "type(x) == VAR == TRUE", 1 }, { "1/0 > 1", 0 }, { "1/0 == 1 || TRUE", 0 },
    { "!(type(x) == OP) || !(type(x) == VAR)", 7 }, { "type(x) == OP || FALSE || FALSE", 2 }, { "count(x+1, x, 2) == 3", 7 }, { "type(sqrt(x)) == OP", 7 }, { "equal(count(x), 1)", 0 },
    { "2 1", -1 }, { "type(x) == VAR OR TRUE", -1 }, { "x <", -1 }, { "equal(x)", -1 }, { "type(x, x)", -1 }, { "type()", -1 }, { "(TRUE", -1 }, { "TRUE)", -1 }, { "equal(x, x, x)", -1 }, { "TRUE TRUE", -1 }, { "x +", -1 }, { "!", -1 },
    { "type(x", -1 }, { "type(x) ==", -1 }, { "== VAR", -1 }, { "type(x) VAR", -1 }, { "", -1 }, { "x = 1", -1 },
};

const std::string g_wide_rule = "prod(a,b,c,d,f,g,h,i,j,k) -> sum(a,b,c,d,f,g,h,i,j,k)", g_too_wide_rule = "prod(a,b,c,d,f,g,h,i,j,k,l) -> a";

const std::vector<std::string> g_list_misuse = { "prod([l]) -> [l]", "prod([l]) -> 1+[l]", "prod([l]) -> sum(sqrt([l]))", "prod([l], x) -> x WHERE type([l]) == VAR", "prod(x, [l]) -> x WHERE [l] == 1", "prod([l]) -> 2 WHERE [l]", "prod([l], x) -> x WHERE equal([l], x)",
    "prod([l], x) -> x WHERE TRUE ; [l] == 1", "prod(x, [l]) -> x WHERE 1 == 1 ; TRUE ; type([l]) == VAR", "prod( -> 1", "prod(x)) -> x", "prod(x,) -> x", "-> 5", " -> x", "prod(x) ->", "*x -> x", "x+ -> x", "(x -> x", "sqrt(x,y) -> x", "sqrt -> x", "prod(x) -> x WHERE TRUE ; zqo",
    "x -> y", "sin() -> 1", "prod(x) -> sqrt(x,x)", "prod(x) -> sqrt", "prod(x) -> x ; y", "prod(x) -> y WHERE type(x) == VAR", "prod(x, x, x) -> x+x+y",
    "sinh(x) -> 1 -> x+2", "sinh(x) -> x+2 ->", "sinh(x) -> x+2 -> x+2", "cosh(x) -> cosh(x) -> x", "sinh(x) ->", "sinh(x) -> x+2 WHERE type(x) == CONST WHERE type(x) == VAR", "sinh(x) -> x+2 ; x+3", "sinh(x,y) -> x", "sinh() -> 1", "sinh(x) -> x+2 x", "sinh(x) -> x+2 WHERE (type(x) == CONST", "sinh(x) -> x+2 WHERE type(x) == CONST ;", "sinh(x) -> x+2 WHERE type(x) == CONST ; ; type(x) == CONST", "sinh(x) -> x+2 WHERE type(x) = CONST", "sinh(x) -> x+2 WHERE type(y) == CONST", "sinh(x) -> x+2 WHERE nosuch(x) == CONST", "sinh(x) -->", "sinh(x) -> x+2 WHERE x < y", "sinh(x) -> @", "sinh(x) -> x ? 2", "sinh(x) -> \"x\"", "sinh(x)) -> x+2", ")sinh(x) -> x+2", "sinh(x) -> x+2)", "sinh(x) -> x+2 WHERE type(x) == CONST)", "sinh(x) -> x,2", "sinh(x), -> x+2", "sinh(x) -> sinh", "sinh -> 2", "sinh(x) -> x+2, WHERE type(x) == CONST", "sinh(x) -> x*/2", "sinh(x) -> * x", "->", "->->", "sinh(x) -> RULESET", "sinh(x) -> x+2 WHERE" };

std::string tiny_ruleset(const std::vector<long> &ks)
{
    std::string r = "# generated\n";
    for (size_t i = 0; i < 7; i++)
    {
        r += strf("# section %zu\nRULESET\n", i + 1);
        if (i < ks.size() && ks[i] >= 0)
        {
            if (ks[i] == 0) r += "    " + g_markers[i] + "(x) -> x\n";
            else r += "    " + g_markers[i] + strf("(x) -> x+%ld\n", ks[i]);
        }
    }
    return r;
}
const std::string &full_ruleset()
{
    static std::string s;
    if (s.empty())
    {
        std::ifstream f("/repo/simplification.ruleset", std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        s = ss.str();
    }
    return s;
}
std::string fmt_value(double v)
{
    return normalize_zero(strf("%-.10g", v));
}
static std::string fmt_row(double v) { return normalize_zero(strf("%-.10f", v)); }

static AstP num(double v) { auto a = std::make_shared<Ast>(); a->k = Ast::NUM; a->v = v; return a; }
static AstP var(const std::string &n) { auto a = std::make_shared<Ast>(); a->k = Ast::VAR; a->s = n; return a; }
static AstP op(const std::string &n, std::vector<AstP> c) { auto a = std::make_shared<Ast>(); a->k = Ast::OP; a->s = n; a->c = std::move(c); return a; }

bool Model::has_var(const AstP &a)
{
    if (a->k == Ast::VAR) return true;
    for (auto &c : a->c) if (has_var(c)) return true;
    return false;
}
void Model::vars(const AstP &a, std::set<std::string> &out)
{
    if (a->k == Ast::VAR) out.insert(a->s);
    for (auto &c : a->c) vars(c, out);
}
size_t Model::size(const AstP &a)
{
    size_t n = 1;
    for (auto &c : a->c) n += size(c);
    return n;
}
static AstP subst(const AstP &a, const std::vector<std::string> &names, const std::vector<AstP> &args)
{
    if (a->k == Ast::VAR)
    {
        for (size_t i = 0; i < names.size(); i++) if (names[i] == a->s) return args[i];
        return a;
    }
    if (a->k != Ast::OP) return a;
    std::vector<AstP> c;
    for (auto &x : a->c) c.push_back(subst(x, names, args));
    return op(a->s, c);
}

// ---------------------------------------------------------------- parsing
static bool letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '[' || c == ']'; }
static bool digit(char c) { return (c >= '0' && c <= '9') || c == '.'; }

Model::PR Model::tokenize(const std::string &s)
{
    toks.clear();
    tp = 0;
    PR res = OK;
    for (size_t i = 0; i < s.size();)
    {
        char c = s[i];
        if (c == ' ') { i++; continue; }
        if (digit(c))
        {
            size_t j = i;
            while (j < s.size() && digit(s[j])) j++;
            std::string t = s.substr(i, j - i);
            size_t dots = 0;
            for (char d : t) dots += d == '.';
            if (dots > 1 || t == ".") return UNSUP;
            toks.push_back({ 'n', t });
            i = j;
        }
        else if (letter(c))
        {
            size_t j = i;
            while (j < s.size() && letter(s[j])) j++;
            toks.push_back({ 'w', s.substr(i, j - i) });
            i = j;
        }
        else
        {
            if (strchr("+-*/^(){},@$", c) && c) toks.push_back({ c == '{' ? '(' : c == '}' ? ')' : c, std::string(1, c) });
            else if (strchr("?&~:\"|;`\\", c) && c) res = REJECT; // never part of an expression
            else if (c == '!' || c == '%' || c == '\'') toks.push_back({ c, std::string(1, c) });
            else if (c < 32 || c >= 127 || c == '#' || c == '=' || c == '<' || c == '>') res = REJECT;
            else return UNSUP;
            i++;
        }
    }
    for (auto &t : toks) if (t.t == 'w' && t.s[0] == '[') return UNSUP;
    return res;
}

Model::PR Model::p_operand(AstP *out)
{
    if (++steps > 2000000) { too_big = true; return UNSUP; }
    if (tp >= toks.size()) return REJECT;
    Tok t = toks[tp++];
    if (t.t == 'n')
    {
        *out = num(strtod(t.s.c_str(), NULL));
        return OK;
    }
    if (t.t == '(')
    {
        AstP a;
        PR r = p_expr(&a);
        if (r != OK) return r;
        if (tp >= toks.size() || toks[tp].t != ')') return REJECT;
        tp++;
        *out = a;
        return OK;
    }
    if (t.t != 'w') return REJECT; // operator or delimiter in place of operand
    const std::string &n = t.s;
    const Def *d = st.find(n);
    if (n == "C" || n == "mod") return d ? UNSUP : REJECT;
    double cv;
    if (constant_value(n, &cv)) { *out = num(cv); return OK; }
    if (n == "ans") { cur_hist = true; *out = op("@", { num(0) }); return OK; }
    bool builtin = builtin_functions().count(n) != 0;
    if (d && d->params.empty())
    {
        cur_fun = true;
        *out = d->body;
        return OK;
    }
    if (!d && !builtin)
    {
        if (tp < toks.size() && toks[tp].t == '(') cur_fun = true; // unknown function: read as a product
        *out = var(n);
        if (n.compare(0, 2, "zq") != 0) cur_fun = true; // name that may have been defined at another time
        return OK;
    }
    // Function with parameter list
    if (tp >= toks.size() || toks[tp].t != '(') return REJECT;
    tp++;
    std::vector<AstP> args;
    if (tp < toks.size() && toks[tp].t == ')') tp++;
    else
    {
        while (true)
        {
            AstP a;
            PR r = p_expr(&a);
            if (r != OK) return r;
            args.push_back(a);
            if (tp >= toks.size()) return REJECT;
            if (toks[tp].t == ',') { tp++; continue; }
            if (toks[tp].t == ')') { tp++; break; }
            return UNSUP;
        }
    }
    if (d)
    {
        cur_fun = true;
        if (args.size() != d->params.size()) return REJECT;
        *out = subst(d->body, d->params, args);
        if (size(*out) > 4000) { too_big = true; return UNSUP; }
        return OK;
    }
    auto it = known_arity().find(n);
    if (it == known_arity().end()) return UNSUP;
    if (it->second >= 0 && (size_t)it->second != args.size()) return REJECT;
    if (args.empty() && (n == "max" || n == "min" || n == "var")) return UNSUP;
    if (n == "rand") cur_rand = true;
    *out = op(n, args);
    return OK;
}

// Operand with its prefix and postfix operators
Model::PR Model::p_postfix(AstP *out)
{
    if (++steps > 2000000) { too_big = true; return UNSUP; }
    std::string pre;
    bool rest = false;
    while (tp < toks.size() && strchr("+-@$", toks[tp].t))
    {
        char c = toks[tp++].t;
        if (c == '$') { rest = true; break; }
        pre += c;
    }
    PR r = rest ? p_expr(out) : p_operand(out);
    if (r != OK) return r;
    if (rest) *out = op("$", { *out });
    auto wrap = [&]
    {
        char c = pre.back();
        pre.pop_back();
        if (c == '@')
        {
            if (has_var(*out)) return false;
            cur_hist = true;
        }
        *out = op(c == '-' ? "neg" : c == '+' ? "pos" : "@", { *out });
        return true;
    };
    while (tp < toks.size() && strchr("!%'", toks[tp].t))
    {
        while (!pre.empty()) if (!wrap()) return UNSUP; // all of them bind stronger or from the left
        *out = op(toks[tp++].s, { *out });
    }
    while (!pre.empty()) if (!wrap()) return UNSUP;
    return OK;
}

// Infix operators with the precedence given in the documentation
Model::PR Model::p_expr(AstP *out)
{
    std::vector<AstP> nodes;
    std::vector<std::string> ops;
    auto prec = [](const std::string &o) { return o == "^" ? 5 : o == "*" ? 4 : o == "/" ? 3 : o == "+" || o == "-" ? 2 : 1; };
    auto reduce_top = [&]
    {
        AstP b = nodes.back(); nodes.pop_back();
        AstP a = nodes.back(); nodes.pop_back();
        nodes.push_back(op(ops.back(), { a, b }));
        ops.pop_back();
    };
    while (true)
    {
        AstP a;
        PR r = p_postfix(&a);
        if (r != OK) return r;
        nodes.push_back(a);
        if (tp >= toks.size() || toks[tp].t == ')' || toks[tp].t == ',') break;
        std::string o = "*"; // implicit multiplication
        if (strchr("+-*/^", toks[tp].t) || (toks[tp].t == 'w' && (toks[tp].s == "C" || toks[tp].s == "mod"))) o = toks[tp++].s;
        while (!ops.empty() && (prec(o) < prec(ops.back()) || (prec(o) == prec(ops.back()) && o != "^"))) reduce_top();
        ops.push_back(o);
    }
    while (!ops.empty()) reduce_top();
    *out = nodes[0];
    return OK;
}

Model::PR Model::parse(const std::string &s, AstP *out)
{
    PR r = tokenize(s);
    if (r != OK) return r;
    if (toks.empty()) return REJECT;
    r = p_expr(out);
    if (r != OK) return r;
    if (tp < toks.size()) return REJECT; // closing parenthesis or delimiter
    return OK;
}

// ---------------------------------------------------------------- evaluation
bool Model::apply(const std::string &o, const std::vector<double> &x, double *out)
{
    if (o == "+") *out = x[0] + x[1];
    else if (o == "-") *out = x[0] - x[1];
    else if (o == "*") *out = x[0] * x[1];
    else if (o == "/") { if (x[1] == 0) return false; *out = x[0] / x[1]; }
    else if (o == "^")
    {
        if (x[0] == 0 && x[1] <= 0) return false;
        if (x[0] < 0 && x[1] < 1) return false;
        *out = pow(x[0], x[1]);
    }
    else if (o == "neg") *out = -x[0];
    else if (o == "pos" || o == "$") *out = x[0];
    else if (o == "@")
    {
        double i = trunc(x[0]);
        if (!(i >= 0 && i < (double)st.hist.size())) return false;
        *out = st.hist[st.hist.size() - 1 - (size_t)i];
    }
    else if (o == "sqrt") { if (!(x[0] >= 0)) return false; *out = sqrt(x[0]); }
    else if (o == "root") { if (!(x[0] >= 0)) return false; *out = pow(x[0], 1 / x[1]); }
    else if (o == "abs") *out = fabs(x[0]);
    else if (o == "ceil") *out = ceil(x[0]);
    else if (o == "floor") *out = floor(x[0]);
    else if (o == "round") *out = round(x[0]);
    else if (o == "trunc") *out = trunc(x[0]);
    else if (o == "sgn") *out = x[0] < 0 ? -1 : x[0] > 0 ? 1 : 0;
    else if (o == "sin") *out = sin(x[0]);
    else if (o == "cos") *out = cos(x[0]);
    else if (o == "ln") *out = log(x[0]);
    else if (o == "sinh") *out = sinh(x[0]);
    else if (o == "cosh") *out = cosh(x[0]);
    else if (o == "tanh") *out = tanh(x[0]);
    else if (o == "asinh") *out = asinh(x[0]);
    else if (o == "acosh") *out = acosh(x[0]);
    else if (o == "atanh") *out = atanh(x[0]);
    else if (o == "gamma") *out = tgamma(x[0]);
    else if (o == "sum") { double r = 0; for (double v : x) r += v; *out = r; }
    else if (o == "prod") { double r = 1; for (double v : x) r *= v; *out = r; }
    else if (o == "max") { double r = -INFINITY; for (double v : x) if (v > r) r = v; *out = r; }
    else if (o == "min") { double r = INFINITY; for (double v : x) if (v < r) r = v; *out = r; }
    else if (o == "exp") *out = exp(x[0]);
    else if (o == "log") *out = log(x[0]) / log(x[1]);
    else if (o == "ld") *out = log2(x[0]);
    else if (o == "lg") *out = log10(x[0]);
    else if (o == "tan") *out = tan(x[0]);
    else if (o == "asin") *out = asin(x[0]);
    else if (o == "acos") *out = acos(x[0]);
    else if (o == "atan") *out = atan(x[0]);
    else if (o == "frac") *out = x[0] - floor(x[0]);
    else if (o == "avg") { double r = 0; for (double v : x) r += v; *out = x.empty() ? 0 : r / (double)x.size(); }
    else if (o == "var")
    {
        double u = 0, r = 0;
        for (double v : x) u += v;
        u /= (double)x.size();
        for (double v : x) r += pow(v - u, 2);
        *out = r / (double)x.size();
    }
    else if (o == "%") *out = x[0] / 100;
    else if (o == "mod") *out = fmod(x[0], x[1]);
    else if (o == "'" || o == "deriv") return false;
    else if ((o == "!" || o == "fib") && std::isfinite(x[0]) && (x[0] == trunc(x[0]) || x[0] >= 0))
    {
        double n = trunc(x[0]), r = 1, p = 0, q = 1;
        if (o == "!") for (double i = n; i > 1 && std::isfinite(r); i--) r *= i; // downwards
        else for (double i = 0; i < fabs(n) && std::isfinite(p); i++) { double s = p + q; p = q; q = s; }
        if (n < 0 && fmod(n, 2) == 0) p = -p;
        *out = o == "!" ? r : p;
    }
    else if ((o == "gcd" || o == "lcm" || o == "C") && x[0] >= 1 && x[1] >= 1 && x[0] <= 1e300 && x[1] <= 1e300 && x[0] == trunc(x[0]) && x[1] == trunc(x[1]))
    {
        double a = x[0], b = x[1];
        while (b != 0) { double t = fmod(a, b); a = b; b = t; }
        if (o == "C")
        {
            double n = x[0], k = x[1];
            if (k > n) { unsup("operand of C"); *out = 0; return true; }
            if (2 * k > n) k = n - k;
            double r = 1;
            for (double i = 1; i <= k && std::isfinite(r); i++) r = r * (n - k + i) / i;
            *out = r;
        }
        else *out = o == "gcd" ? a : x[0] * x[1] / a;
    }
    else { unsup("operator " + o); *out = 0; }
    return true;
}

static bool has_special(const AstP &a)
{
    if (a->k == Ast::NUM) return !std::isfinite(a->v);
    for (auto &c : a->c) if (has_special(c)) return true;
    return false;
}

bool Model::value(const AstP &a, double *out)
{
    if (++steps > 20000000) { too_big = true; unsup("too long"); *out = 0; return true; }
    if (a->k == Ast::NUM) { *out = a->v; return true; }
    if (a->k == Ast::VAR) { unsup("value of variable"); *out = 0; return true; }
    if (a->k == Ast::RANDC) { unsup("unbound random value"); *out = 0; return true; }
    if (a->s == "rand") { unsup("value of rand"); *out = 0; return true; }
    std::vector<double> x(a->c.size());
    for (size_t i = 0; i < x.size(); i++) if (!value(a->c[i], &x[i])) return false;
    return apply(a->s, x, out);
}

// Replaces constant subtrees by their values
bool Model::reduce(AstP &a)
{
    if (!has_var(a))
    {
        if (a->k != Ast::OP) return true;
        if ((a->s == "-" || a->s == "+") && a->c.size() == 2 && a->c[0]->k == Ast::OP && a->c[0]->s == "rand")
        {
            // Great random values are only seen exactly next to a number of their size
            AstP v = a->c[0];
            double d;
            if (!reduce(v) || !value(a->c[1], &d)) return false;
            if (v->k == Ast::RANDC)
            {
                if (a->s == "-") d = -d;
                if (d == trunc(d) && -d / v->lo >= 0.6 && -d / v->lo <= 1.6 && -d / v->hi >= 0.6 && -d / v->hi <= 1.6) { v->lo += d; v->hi += d; }
                else unsup("value of rand");
                a = v;
                return true;
            }
        }
        if (a->s == "rand")
        {
            // Random value: known only from the output
            double lo, hi;
            if (!value(a->c[0], &lo) || !value(a->c[1], &hi)) return false;
            if (!std::isfinite(lo) || !std::isfinite(hi)) unsup("range of rand");
            auto r = std::make_shared<Ast>();
            r->k = Ast::RANDC; r->id = ++rand_ids; r->lo = trunc(lo); r->hi = trunc(hi);
            a = r;
            return true;
        }
        double v;
        if (!value(a, &v)) return false;
        a = num(v);
        return true;
    }
    if (a->k == Ast::OP)
    {
        AstP n = op(a->s, a->c);
        for (auto &c : n->c) if (!reduce(c)) return false;
        a = n;
    }
    return true;
}

// Applies the rule at its first match from the top, if there is one
static AstP apply_first(const AstP &a, const Rule &r, bool &done)
{
    if (a->k != Ast::OP) return a;
    if (a->s == r.marker && a->c.size() == 1)
    {
        Ast::K t = a->c[0]->k;
        if (r.mask & (t == Ast::VAR ? 1 : t == Ast::OP ? 2 : 4))
        {
            done = true;
            return r.k == 0 ? a->c[0] : op("+", { a->c[0], num((double)r.k) });
        }
    }
    for (size_t i = 0; i < a->c.size(); i++)
    {
        AstP x = apply_first(a->c[i], r, done);
        if (!done) continue;
        std::vector<AstP> c = a->c;
        c[i] = x;
        return op(a->s, c);
    }
    return a;
}

AstP Model::rewrite(const AstP &a)
{
    if (a->k != Ast::OP || !st.rules.loaded) return a;
    AstP t = a;
    for (int s : { 0, 2, 3, 4, 5, 6, 1, 0, 2, 3, 4, 5, 6 })
    {
        bool again = true;
        while (again)
        {
            again = false;
            for (auto &r : st.rules.section[s])
            {
                t = apply_first(t, r, again);
                if (again) { cur_rules = true; break; }
            }
        }
    }
    return t;
}

static bool has_deriv(const AstP &a)
{
    if (a->k != Ast::OP) return false;
    if (a->s == "'" || a->s == "deriv") return true;
    for (auto &c : a->c) if (has_deriv(c)) return true;
    return false;
}

// Derivatives while a ruleset is in force: only a few simple ones are known
bool Model::derive(AstP a, AstP *out)
{
    cur_rules = true;
    // Everything constant that is no derivative is evaluated before
    std::function<bool(AstP &)> parts = [&](AstP &x)
    {
        if (!has_deriv(x)) return reduce(x);
        auto n = std::make_shared<Ast>(*x);
        x = n;
        for (auto &c : n->c) if (!parts(c)) return false;
        return true;
    };
    if (!parts(a)) return false;
    if (!st.rules.full) return false; // no rule to eliminate it
    if (a->s == "+" && a->c.size() == 2)
    {
        AstP d = a->c[0], o = a->c[1];
        if (!has_deriv(d)) std::swap(d, o);
        if (d->s != "'" || d->c[0]->k != Ast::NUM || o->k != Ast::NUM) { unsup("derivative"); return false; }
        *out = num(o->v + 0.0);
        return true;
    }
    if ((a->s != "'" && a->s != "deriv") || has_deriv(a->c[0])) { unsup("derivative"); return false; }
    AstP f = a->c[0];
    std::set<std::string> vs;
    vars(f, vs);
    std::string v;
    if (a->s == "'")
    {
        if (vs.size() > 1)
        {
            if ((f->s == "+" || f->s == "*") && f->c[0]->k == Ast::VAR && f->c[1]->k == Ast::VAR) return false;
            unsup("derivative");
            return false;
        }
        if (f->k == Ast::NUM) { *out = num(0); return true; }
        if (vs.empty()) { unsup("derivative"); return false; }
        v = *vs.begin();
    }
    else
    {
        if (a->c[1]->k == Ast::NUM) return false; // not a variable
        if (a->c[1]->k != Ast::VAR) { unsup("derivative"); return false; }
        v = a->c[1]->s;
    }
    auto is_v = [&](const AstP &x) { return x->k == Ast::VAR && x->s == v; };
    if (f->k == Ast::NUM || f->k == Ast::VAR) { *out = num(is_v(f) ? 1 : 0); return true; }
    if (f->s == "+" && is_v(f->c[0]) && f->c[1]->k == Ast::NUM) { *out = num(1); return true; }
    if (f->s == "*" && f->c[0]->k == Ast::NUM && f->c[0]->v > 0 && is_v(f->c[1])) { *out = f->c[0]; return true; }
    if (f->s == "^" && is_v(f->c[0]) && f->c[1]->k == Ast::NUM && f->c[1]->v == 2) { *out = op("*", { num(2), var(v) }); return true; }
    if (f->c.size() == 1 && is_v(f->c[0])) for (auto &m : g_markers) if (f->s == m) return false; // no rule for it
    unsup("derivative");
    return false;
}

bool Model::prepared(const std::string &s, AstP *out)
{
    PR r = parse(s, out);
    if (r == UNSUP) { unsup("expression: " + s); return false; }
    if (r == REJECT) return false;
    if (st.rules.loaded && has_deriv(*out)) return derive(*out, out);
    if (!reduce(*out)) return false;
    *out = rewrite(*out);
    if (!reduce(*out)) return false;
    // Which rules such a number matches is not the model's business
    if (st.rules.loaded && has_var(*out) && has_special(*out)) unsup("not finite within an expression");
    return true;
}

std::string trim(const std::string &s);

// A constraint with x replaced by another name
std::string cond_with(const std::string &cond, const std::string &p)
{
    std::string t;
    for (char c : cond) { if (c == 'x') t += p; else t += c; }
    return t;
}

// ---------------------------------------------------------------- output matching
void Model::fail_match(const std::string &why)
{
    if (!matched) return;
    matched = false;
    mismatch = why;
    mismatch_cmd = (long)cmds.size() - 1;
}

void Model::close_help(size_t from, size_t to)
{
    help_pending = false;
    if (!help_verify) return;
    std::map<std::string, size_t> seen;
    bool in = false;
    for (size_t i = from; i < to; i++)
    {
        std::string l = strip_ansi(out_lines[i]);
        if (l.find("User-defined functions and constants:") != std::string::npos) { in = true; continue; }
        if (!in) continue;
        size_t eq = l.find('=');
        if (eq == std::string::npos) continue;
        std::string left = l.substr(0, eq);
        size_t a = left.find_first_not_of(' '), b = left.find_last_not_of(' ');
        if (a == std::string::npos) continue;
        left = left.substr(a, b - a + 1);
        size_t p = left.find('(');
        size_t arity = 0;
        std::string name = left;
        if (p != std::string::npos)
        {
            name = left.substr(0, p);
            arity = left.find(')') == p + 1 ? 0 : 1;
            for (char ch : left) arity += ch == ',';
        }
        if (seen.count(name)) { fail_match("help lists '" + name + "' twice"); mismatch_cmd = help_cmd; return; }
        seen[name] = arity;
    }
    if (seen != help_live)
    {
        std::string x, y;
        for (auto &k : help_live) x += strf(" %s/%zu", k.first.c_str(), k.second);
        for (auto &k : seen) y += strf(" %s/%zu", k.first.c_str(), k.second);
        fail_match("help: expected user-defined names" + x + " but listed are" + y);
        mismatch_cmd = help_cmd;
    }
}

static std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string w;
    while (is >> w) r.push_back(w);
    return r;
}

// Whether a is b, up to the number of digits printed
static bool same_tree(const AstP &a, const AstP &b)
{
    auto number = [](const AstP &x, double *v)
    {
        if (x->k == Ast::NUM) { *v = x->v; return true; }
        if (x->k == Ast::OP && x->s == "neg" && x->c[0]->k == Ast::NUM) { *v = -x->c[0]->v; return true; }
        return false;
    };
    double x, y;
    if (number(a, &x)) return number(b, &y) && fabs(x - y) <= 1e-8 * (fabs(x) + fabs(y)) + 1e-9;
    if (a->k != b->k || a->s != b->s || a->c.size() != b->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); i++) if (!same_tree(a->c[i], b->c[i])) return false;
    return true;
}

// Value with numbers in place of the variables
bool Model::at(const AstP &a, const std::map<std::string, double> &x, double *out)
{
    if (a->k == Ast::NUM) { *out = a->v; return true; }
    if (a->k == Ast::VAR)
    {
        auto it = x.find(a->s);
        if (it == x.end()) return false;
        *out = it->second;
        return true;
    }
    if (a->k != Ast::OP || a->s == "@" || a->s == "rand") return false;
    std::vector<double> v(a->c.size());
    for (size_t i = 0; i < v.size(); i++) if (!at(a->c[i], x, &v[i])) return false;
    return apply(a->s, v, out);
}

// Reads a printed expression: it has to be the one asked for or, if there are rules that may have rewritten it, of the same value
std::string Model::read_back(const AstP &expr, const std::string &got)
{
    for (size_t i = 0; i + 2 < got.size(); i++)
    {
        // Numbers with exponents are not part of the language
        if (isdigit((unsigned char)got[i]) && got[i + 1] == 'e' && strchr("+-", got[i + 2])) return "";
    }
    AstP back;
    bool sup = supported, big = too_big, h = cur_hist, f = cur_fun, r = cur_rand;
    long n = steps;
    PR res = parse(strip_ansi(got), &back);
    supported = sup; too_big = big; cur_hist = h; cur_fun = f; cur_rand = r; steps = n;
    if (res == UNSUP) return "";
    if (res == REJECT) return "it cannot be read";
    if (!st.was_full) return same_tree(expr, back) ? "" : "it reads as something else";
    std::set<std::string> vs, bs;
    vars(expr, vs);
    vars(back, bs);
    for (auto &v : bs) if (!vs.count(v)) return "it contains '" + v + "'";
    static const double base[3] = { 1.37, 0.73, 2.59 };
    for (int i = 0; i < 3; i++)
    {
        std::map<std::string, double> x, near;
        double d = base[i];
        for (auto &v : vs) { x[v] = d; near[v] = d * (1 + 1e-8); d = d * 1.31 + 0.17; }
        double e, e2, g;
        bool ok = at(expr, x, &e) && at(expr, near, &e2) && at(back, x, &g) && supported == sup;
        if (supported != sup) { supported = sup; unsupported.clear(); }
        if (!ok) continue;
        if (!std::isfinite(e) || !std::isfinite(g) || fabs(e) > 1e12 || fabs(e - e2) > 1e-5 * (1 + fabs(e))) continue;
        if (fabs(e - g) > 1e-4 * (1 + fabs(e))) return strf("its value is %g and not %g, for example", g, e);
    }
    return "";
}

void Model::emit(Cmd &cmd, const Item &it0)
{
    Item it = it0;
    cmd.items.push_back(it);
    if (!checking || !matched) return;
    if (it.k == Item::HELP || it.k == Item::OPAQUE_TEXT)
    {
        if (help_pending) { help_verify = false; }
        else help_verify = it.k == Item::HELP;
        help_pending = true;
        help_live = it.live;
        help_cmd = (long)cmds.size() - 1;
        return;
    }
    if (help_pending)
    {
        // Text of unknown length ends where the next sentinel is printed
        if (it.k != Item::EXACT || it.text.compare(0, 2, "zq") != 0) { unsup("no sentinel after help"); return; }
        size_t i = out_pos;
        while (i < out_lines.size() && out_lines[i] != it.text) i++;
        if (i == out_lines.size()) { fail_match("output ends before '" + it.text + "'"); return; }
        close_help(out_pos, i);
        out_pos = i + 1;
        return;
    }
    if (it.k == Item::OPTIONAL)
    {
        if (out_pos < out_lines.size() && out_lines[out_pos] == it.text) out_pos++;
        return;
    }
    if (it.k == Item::TABLE)
    {
        for (size_t r = 0; r < it.rows.size(); r++)
        {
            if (out_pos >= out_lines.size()) { fail_match(strf("row %zu of table missing", r + 1)); return; }
            auto w = words(strip_ansi(out_lines[out_pos]));
            std::string got = out_lines[out_pos];
            out_pos++;
            if (w.size() != 2) { fail_match(strf("row %zu of table: unexpected '", r + 1) + head(got, 80) + "'"); return; }
            std::string x = fmt_row(it.rows[r].first);
            const std::string &e = it.rows[r].second;
            if (normalize_zero(w[0]) != x) { fail_match(strf("row %zu of table: argument %s, expected %s", r + 1, w[0].c_str(), x.c_str())); return; }
            if (e[0] == 'R')
            {
                double lo = 0, hi = 0;
                sscanf(e.c_str(), "R %lf %lf", &lo, &hi);
                double v = atof(w[1].c_str());
                if (v != trunc(v) || v < lo || v >= hi) { fail_match(strf("row %zu of table: random value %s not an integer of [%g, %g)", r + 1, w[1].c_str(), lo, hi)); return; }
            }
            else if (normalize_zero(w[1]) != e) { fail_match(strf("row %zu of table: result %s, expected %s", r + 1, w[1].c_str(), e.c_str())); return; }
        }
        if (it.fold)
        {
            std::string e = fmt_value(it.foldv);
            if (out_pos >= out_lines.size()) { fail_match("fold result missing"); return; }
            auto w = words(strip_ansi(out_lines[out_pos]));
            std::string got = out_lines[out_pos];
            out_pos++;
            if (w.empty() || normalize_zero(w.back()) != e) { fail_match("fold result '" + head(got, 80) + "', expected " + e); return; }
        }
        return;
    }
    if (out_pos >= out_lines.size()) { fail_match("output ends, expected " + (it.k == Item::VALUE ? fmt_value(it.v) : it.k == Item::EXACT ? it.text : std::string("a result"))); return; }
    const std::string &got = out_lines[out_pos++];
    if (it.k == Item::VALUE)
    {
        std::string e = fmt_value(it.v);
        if (normalize_zero(got) != e) fail_match("result '" + head(got, 80) + "', expected " + e);
    }
    else if (it.k == Item::EXACT)
    {
        if (got != it.text) fail_match("result '" + head(got, 80) + "', expected '" + head(it.text, 80) + "'");
    }
    else if (it.k == Item::SYM)
    {
        if (got.empty()) fail_match("empty result");
        char *end;
        strtod(got.c_str(), &end);
        if (!got.empty() && *end == 0) fail_match("result '" + head(got, 80) + "', expected an expression");
        else if (it.expr)
        {
            std::string why = read_back(it.expr, got);
            if (!why.empty()) fail_match("result '" + head(got, 80) + "' does not mean what was asked for: " + why);
        }
    }
    else if (it.k == Item::RAND)
    {
        char *end;
        double v = strtod(got.c_str(), &end);
        if (got.empty() || *end) fail_match("result '" + head(got, 80) + "' of rand is not a number");
        else if (v != trunc(v) || v < it.lo || v >= it.hi) fail_match(strf("rand gave %s, expected an integer of [%g, %g)", got.c_str(), it.lo, it.hi));
        cmd.items.back().v = v;
    }
}

// ---------------------------------------------------------------- commands
static bool begins(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// Written out, for sums and functions of one operand only; empty: not known
static std::string plain(const AstP &a, bool right = false)
{
    if (a->k == Ast::VAR) return a->s;
    if (a->k == Ast::NUM) return right && !signbit(a->v) && std::isfinite(a->v) ? fmt_value(a->v) : "";
    if (a->k != Ast::OP) return "";
    if (a->s == "+" && a->c.size() == 2 && !right)
    {
        std::string l = plain(a->c[0]), r = plain(a->c[1], true);
        return l.empty() || r.empty() ? "" : l + "+" + r;
    }
    if (a->c.size() == 1 && letter(a->s[0]) && a->s != "neg" && a->s != "pos")
    {
        std::string x = plain(a->c[0]);
        return x.empty() ? "" : a->s + "(" + x + ")";
    }
    return "";
}

// Whether rules might turn it into a number
static bool may_vanish(const AstP &a)
{
    std::map<std::string, int> n;
    bool zero = false;
    std::function<void(const AstP &)> go = [&](const AstP &x)
    {
        if (x->k == Ast::VAR) n[x->s]++;
        if (x->k == Ast::NUM && x->v == 0) zero = true;
        for (auto &c : x->c) go(c);
    };
    go(a);
    for (auto &k : n) if (k.second > 1) zero = true;
    return zero;
}

bool Model::do_eval(const std::string &text, Cmd &cmd)
{
    cmd.kind = "eval";
    AstP a;
    if (!prepared(text, &a)) { cmd.why = "expression"; return false; }
    if (!has_var(a))
    {
        if (a->k == Ast::RANDC)
        {
            if (a->hi <= a->lo) { unsup("empty range"); return true; }
            Item it; it.k = Item::RAND; it.lo = a->lo; it.hi = a->hi; it.v = a->lo;
            emit(cmd, it);
            // Value is what has been printed
            if (a->v == 0 && a.use_count() > 1) {}
            double v = cmd.items.back().v;
            if (fabs(v) > 9e9) unsup("random value not printed exactly");
            a->k = Ast::NUM; // binds every definition that shares it
            a->v = v;
            st.hist.push_back(v);
            cmd.uses_rand = true;
            return true;
        }
        Item it; it.k = Item::VALUE; it.v = a->v;
        emit(cmd, it);
        st.hist.push_back(a->v);
        return true;
    }
    Item it;
    if (has_special(a)) it.k = Item::SYM; // how such a number is written is not the model's business
    else if (a->k == Ast::VAR) { it.k = Item::EXACT; it.text = a->s; }
    else if (a->s == "+" && a->c[0]->k == Ast::VAR && a->c[1]->k == Ast::NUM && !signbit(a->c[1]->v) && !st.was_full)
    {
        it.k = Item::EXACT; it.text = a->c[0]->s + "+" + fmt_value(a->c[1]->v);
    }
    else if (a->s == "+" && a->c[0]->k == Ast::VAR && a->c[1]->k == Ast::VAR && a->c[0]->s == a->c[1]->s)
    {
        it.k = Item::EXACT;
        it.text = st.rules.full ? "2*" + a->c[0]->s : a->c[0]->s + "+" + a->c[0]->s;
        cmd.uses_rules = true;
    }
    else if (a->c.size() == 1 && a->c[0]->k == Ast::VAR && (a->s == "!" || a->s == "%" || a->s == "'"))
    {
        if (st.rules.full && a->s == "%") { it.k = Item::SYM; it.expr = a; }
        else { it.k = Item::EXACT; it.text = a->c[0]->s + a->s; }
    }
    else if (a->c.size() == 1 && a->c[0]->k == Ast::VAR && a->s != "neg" && a->s != "pos" && a->s != "@" && !st.was_full)
    {
        it.k = Item::EXACT; it.text = a->s + "(" + a->c[0]->s + ")";
        for (auto &m : g_markers) if (m == a->s) cmd.uses_rules = true;
    }
    else if (!st.was_full && !plain(a).empty()) { it.k = Item::EXACT; it.text = plain(a); }
    else
    {
        it.k = Item::SYM;
        it.expr = a;
        if (st.was_full && st.rules.loaded && may_vanish(a)) unsup("shipped ruleset");
    }
    emit(cmd, it);
    return true;
}

bool Model::do_def(const std::string &text, Cmd &cmd)
{
    cmd.kind = "def";
    cur_fun = true;
    size_t eq = text.find('=');
    std::string left = text.substr(0, eq), right = text.substr(eq + 1);
    PR r = tokenize(left);
    if (r == UNSUP) { unsup("left side: " + left); return false; }
    // Name is the first token
    size_t f = left.find_first_not_of(' ');
    if (f == std::string::npos || !letter(left[f])) { cmd.why = "no name"; return false; }
    size_t g = f;
    while (g < left.size() && letter(left[g])) g++;
    std::string name = left.substr(f, g - f);
    if (builtin_functions().count(name)) { cmd.why = "built-in"; return false; }
    if (st.find(name)) { cmd.why = "redefinition"; return false; }
    if (name == "inf" || name == "nan" || name == "infinity") { unsup("name"); return false; }
    if (r == REJECT) { cmd.why = "left side"; return false; }
    std::vector<Tok> lt = toks;
    Def d;
    d.name = name;
    bool constant = lt.size() == 1;
    if (!constant)
    {
        // name ( p , p , ... )
        if (lt[1].t != '(') { cmd.why = "left side"; return false; }
        size_t i = 2;
        if (i < lt.size() && lt[i].t == ')') i++;
        else
        {
            while (true)
            {
                if (i >= lt.size()) { cmd.why = "left side"; return false; }
                if (lt[i].t == '(') { unsup("nested parameter"); return false; }
                if (lt[i].t != 'w') { cmd.why = "parameter"; return false; }
                d.params.push_back(lt[i].s);
                i++;
                if (i >= lt.size()) { cmd.why = "left side"; return false; }
                if (lt[i].t == ',') { i++; continue; }
                if (lt[i].t == ')') { i++; break; }
                cmd.why = "parameter";
                return false;
            }
        }
        if (i != lt.size()) { cmd.why = "left side"; return false; }
        std::set<std::string> seen;
        for (auto &p : d.params)
        {
            if (p == name || st.find(p) || builtin_functions().count(p)) { cmd.why = "parameter is no variable"; return false; }
            if (p == "inf" || p == "nan") { unsup("parameter"); return false; }
            seen.insert(p);
        }
        if (d.params.size() > 10) { cmd.why = "too many parameters"; return false; }
        if (seen.size() != d.params.size()) { cmd.why = "parameters not distinct"; return false; }
    }
    r = tokenize(right);
    if (r == UNSUP) { unsup("right side: " + right); return false; }
    if (r == REJECT) { cmd.why = "right side"; return false; }
    for (auto &t : toks) if (t.t == 'w' && t.s == name) { cmd.why = "recursion"; return false; }
    AstP a;
    if (!prepared(right, &a)) { cmd.why = "right side"; return false; }
    std::set<std::string> vs;
    vars(a, vs);
    for (auto &v : vs)
    {
        bool found = false;
        for (auto &p : d.params) found |= p == v;
        if (!found) { cmd.why = "unbound variable"; return false; }
    }
    d.body = a;
    st.defs.push_back(d);
    return true;
}

bool Model::do_clear(const std::string &text, Cmd &cmd)
{
    cur_fun = true;
    if (text == "clear") { cmd.kind = "clearall"; st.defs.clear(); return true; }
    cmd.kind = "clear";
    std::string n = text.substr(6);
    for (size_t i = 0; i < st.defs.size(); i++)
    {
        if (st.defs[i].name == n) { st.defs.erase(st.defs.begin() + i); return true; }
    }
    cmd.why = builtin_functions().count(n) ? "built-in" : "unknown name";
    return false;
}

std::string trim(const std::string &s)
{
    size_t a = s.find_first_not_of(' ');
    if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(' ') - a + 1);
}

bool Model::do_table(const std::string &text, Cmd &cmd)
{
    cmd.kind = "table";
    std::string rest = text.substr(6);
    static const char *del[5] = { ";", ";", ";", " fold ", ";" };
    std::vector<std::string> args;
    for (int i = 0; i < 5; i++)
    {
        size_t p = rest.find(del[i]);
        if (p == std::string::npos) break;
        args.push_back(rest.substr(0, p));
        rest = rest.substr(p + strlen(del[i]));
    }
    args.push_back(rest);
    if (args.size() != 4 && args.size() != 6) { cmd.why = "table syntax"; return false; }
    for (auto &a : args) a = trim(a);
    AstP expr, b[3], fold, init;
    if (!prepared(args[0], &expr)) { cmd.why = "table expression"; return false; }
    std::set<std::string> vs;
    vars(expr, vs);
    if (vs.size() > 1) { cmd.why = "more than one variable"; return false; }
    double bv[3];
    for (int i = 0; i < 3; i++)
    {
        if (!prepared(args[1 + i], &b[i])) { cmd.why = "table bound"; return false; }
        if (!supported) return false;
        if (has_var(b[i])) { cmd.why = "table bound not constant"; return false; }
        if (b[i]->k != Ast::NUM) { unsup("random bound"); return false; }
        bv[i] = b[i]->v;
        if (!std::isfinite(bv[i])) { unsup("table bound not finite"); return false; }
    }
    double s = bv[0], e = bv[1], w = bv[2];
    if (w == 0) { cmd.why = "step is zero"; return false; }
    double fv = 0;
    if (args.size() == 6)
    {
        if (!prepared(args[4], &fold) || !prepared(args[5], &init)) { cmd.why = "fold"; return false; }
        if (!supported) return false;
        std::set<std::string> fs;
        vars(fold, fs);
        fs.erase("x");
        fs.erase("y");
        if (!fs.empty()) { cmd.why = "fold variable"; return false; }
        if (has_var(init)) { cmd.why = "fold init not constant"; return false; }
        if (init->k != Ast::NUM) { unsup("random init"); return false; }
        fv = init->v;
    }
    if (!supported) return false;
    if ((s < e && w < 0) || (s > e && w > 0)) w = -w;
    if (s + w == s && (w > 0 ? s <= e : s >= e)) { cmd.why = "table step lost in rounding"; return false; }
    if (fabs((e - s) / w) > 100000) { too_big = true; unsup("table too long"); return false; }
    Item it;
    it.k = Item::TABLE;
    if (st.rules.full && vs.size() == 1 && size(expr) > 12) { too_big = true; unsup("table with full ruleset"); return false; }
    AstP fixed; // expression without variable
    if (vs.empty())
    {
        if (expr->k == Ast::RANDC) { fixed = expr; cmd.uses_rand = true; if (args.size() == 6) { unsup("fold of rand"); return false; } }
    }
    for (; w > 0 ? s <= e : s >= e; s += w)
    {
        if (s + w == s) { cmd.why = "table step lost in rounding"; return false; }
        AstP cur = expr;
        if (vs.size() == 1) cur = subst(expr, { *vs.begin() }, { num(s) });
        double v = 0;
        if (fixed) { it.rows.push_back({ s, strf("R %g %g", fixed->lo, fixed->hi) }); continue; }
        if (cur->k == Ast::OP && cur->s == "rand")
        {
            double lo, hi;
            if (!value(cur->c[0], &lo) || !value(cur->c[1], &hi) || !(trunc(hi) > trunc(lo))) { unsup("rand row"); return false; }
            if (args.size() == 6) { unsup("fold of rand"); return false; }
            it.rows.push_back({ s, strf("R %g %g", trunc(lo), trunc(hi)) });
            cmd.uses_rand = true;
            continue;
        }
        bool ok = value(cur, &v);
        if (!supported) return false;
        // Rules may have removed the part that has no value there
        if ((!ok || !std::isfinite(v)) && st.was_full && st.rules.loaded && vs.size() == 1 && may_vanish(expr)) { unsup("shipped ruleset"); return false; }
        if (!ok) it.rows.push_back({ s, "Error" });
        else
        {
            it.rows.push_back({ s, fmt_row(v) });
            if (args.size() == 6)
            {
                AstP f = subst(fold, { "x", "y" }, { num(fv), num(v) });
                bool folded = value(f, &fv);
                if (!supported) return false;
                if ((!folded || !std::isfinite(fv)) && st.was_full && st.rules.loaded && may_vanish(fold)) { unsup("shipped ruleset"); return false; }
                if (!folded) { cmd.why = "fold step"; return false; }
            }
        }
    }
    if (args.size() == 6) { it.fold = true; it.foldv = fv; }
    emit(cmd, it);
    if (it.fold) st.hist.push_back(fv);
    return true;
}

Model::Source Model::open_path(const std::string &path, int open_now)
{
    Source s;
    int nth = ++opens[path];
    opened.push_back(path);
    bool edited = false;
    for (auto &f : sc.faults)
        if (f.target == path && (f.kind == "replace" || f.kind == "overwrite" || f.kind == "append" || f.kind == "truncate" || f.kind == "delete")) edited = true;
    if (edited)
    {
        if (!run) { unsup("edited file needs a trace"); return s; }
        s.traced = true;
        while (trace_pos < run->ev.size())
        {
            const Ev &e = run->ev[trace_pos++];
            if (e.type == EV_PROBE && e.a < 0 && path == run->str.c_str() + e.off)
            {
                // Found to be missing, perhaps it is opened nevertheless
                if (trace_pos < run->ev.size() && run->ev[trace_pos].type == EV_OPEN && path == run->str.c_str() + run->ev[trace_pos].off) continue;
                return s;
            }
            if (e.type != EV_OPEN || path != run->str.c_str() + e.off) continue;
            if (e.a < 0) return s;
            s.ok = true;
            s.complete = false;
            for (size_t i = trace_pos; i < run->ev.size(); i++)
            {
                const Ev &x = run->ev[i];
                if (x.type != EV_READ || x.a != e.a) continue;
                if (x.b > 0) s.data.append(run->blob, x.off, (size_t)x.b);
                else { s.complete = true; s.err_end = x.b < 0; break; }
            }
            return s;
        }
        s.complete = false;
        fail_match("file " + path + " was not opened");
        return s;
    }
    for (auto &f : sc.faults)
    {
        if (f.kind == "fopen" && f.target == path && (f.a == 0 || f.a == nth)) return s;
        if (f.kind == "fdlimit" && open_now >= f.a) return s;
    }
    if (open_now >= MAX_OPEN_STREAMS) return s;
    auto it = sc.files.find(path);
    if (it == sc.files.end()) return s;
    s.ok = true;
    s.data = it->second;
    for (auto &f : sc.faults)
    {
        if (f.kind == "eio" && f.target == path && (f.b == 0 || f.b == nth) && (size_t)f.a <= s.data.size())
        {
            s.data.resize(f.a);
            s.err_end = true;
        }
    }
    return s;
}

// A rule written with more blanks than needed
static std::string narrow(const std::string &l)
{
    std::string r;
    for (size_t i = 0; i < l.size(); i++)
    {
        if (l[i] == ' ' && ((!r.empty() && (r.back() == ' ' || r.back() == '(')) || l.find_first_not_of(' ', i) == std::string::npos || l[l.find_first_not_of(' ', i)] == ')')) continue;
        r += l[i];
    }
    return r;
}
static long count_sections(const std::string &data)
{
    long n = 0;
    for (std::string l : split_lines(data)) if (begins(l.substr(std::min(l.find_first_not_of(' '), l.size())), "RULESET")) n++;
    return n;
}
// Returns whether the ruleset is complete and correct; tells the new rules through st.rules
bool Model::load_rules(const Source &src)
{
    if (!src.ok) return false;
    if (src.err_end)
    {
        // What is beyond the last ruleset need not be read
        if (count_sections(src.data) > 7) unsup("read error behind the last ruleset");
        return false;
    }
    if (src.data == full_ruleset())
    {
        st.rules = Rules();
        st.rules.loaded = st.rules.full = st.was_full = true;
        return true;
    }
    Rules r;
    r.loaded = true;
    int section = 0;
    // Some of the shipped one, cut off: either too few rulesets, or a rule that cannot be read as well
    const std::string &full = full_ruleset();
    if (src.data.size() < full.size() && src.data.size() > 40 && full.compare(0, src.data.size(), src.data) == 0)
    {
        if (count_sections(src.data) < 7) return false;
    }
    for (std::string l : split_lines(src.data))
    {
        if (l.find('\0') != std::string::npos) { unsup("NUL in ruleset"); return false; }
        size_t h = l.find('#');
        if (h != std::string::npos) l.resize(h);
        size_t a = l.find_first_not_of(' ');
        l = a == std::string::npos ? "" : l.substr(a);
        if (begins(l, "RULESET")) { section++; continue; }
        if (section > 7) break;
        if (l.empty()) continue;
        if (section == 0) continue; // Ignored with a message
        if (l.find("->") == std::string::npos) return false;
        size_t e = l.find_last_not_of(' ');
        l = l.substr(0, e + 1);
        // As many variables as a rule may have, and one too many
        if (l == g_wide_rule) continue;
        if (l == g_too_wide_rule) return false;
        if (std::find_if(g_list_misuse.begin(), g_list_misuse.end(), [&](const std::string &m) { return trim(m) == l; }) != g_list_misuse.end()) return false;
        // marker(p) -> right [WHERE constraint ; ...]
        l = narrow(l);
        Rule rule;
        size_t b = l.find('('), c = l.find(") ->");
        if (b == std::string::npos || c == std::string::npos || c < b + 2) { unsup("rule: " + l); return false; }
        rule.marker = l.substr(0, b);
        std::string p = l.substr(b + 1, c - b - 1);
        static const std::set<std::string> ps = { "x", "y", "z", "a", "zq", "param" };
        if (std::find(g_markers.begin(), g_markers.end(), rule.marker) == g_markers.end() || !ps.count(p)) { unsup("rule: " + l); return false; }
        std::string rhs = l.substr(c + 4);
        size_t w = rhs.find(" WHERE ");
        bool bad = false;
        if (w != std::string::npos)
        {
            std::string cs = rhs.substr(w + 7);
            rhs.resize(w);
            int n = 0;
            if (begins(trim(cs), ";")) bad = true; // empty
            else while (true)
            {
                size_t q = cs.find(" ; ");
                std::string t = trim(cs.substr(0, q));
                // x stands for the parameter
                bool known = false;
                for (auto &gc : g_conds)
                {
                    std::string s = cond_with(gc.first, p);
                    if (s != t) continue;
                    known = true;
                    if (gc.second < 0) bad = true; else rule.mask &= gc.second;
                    break;
                }
                if (!known) { unsup("rule: " + l); return false; }
                if (++n > 3) bad = true;
                if (q == std::string::npos) break;
                cs = cs.substr(q + 3);
            }
        }
        rhs = trim(rhs);
        for (size_t i; (i = rhs.find(' ')) != std::string::npos; ) rhs.erase(i, 1);
        while (rhs.size() > p.size() + 2 && rhs[0] == '(')
        {
            // Parentheses around the parameter
            size_t n = rhs.find_first_not_of('(');
            if (n == std::string::npos || rhs.compare(n, p.size() + n, p + std::string(n, ')')) != 0) break;
            rhs = p + rhs.substr(2 * n + p.size());
        }
        if (begins(rhs, (p + "+0").c_str()))
        {
            size_t n = rhs.find_first_not_of('0', p.size() + 1);
            if (n != std::string::npos) rhs.erase(p.size() + 1, n - p.size() - 1);
        }
        if (rhs == "" || rhs == p + "+") return false;
        if (rhs == p + "+q" || rhs == p + "+)" || rhs == p + "++" || rhs == "(" + p) return false; // unbound variable or syntax error
        if (rhs == p) rule.k = 0;
        else if (begins(rhs, (p + "+").c_str()) && rhs.size() < p.size() + 8 && rhs.find_first_not_of("0123456789", p.size() + 1) == std::string::npos) rule.k = atol(rhs.c_str() + p.size() + 1);
        else { unsup("rule: " + l); return false; }
        if (bad) return false;
        r.section[section - 1].push_back(rule);
    }
    if (section < 7) return false;
    st.rules = r;
    return true;
}

bool Model::do_load(const std::string &text, Cmd &cmd, size_t index)
{
    if (begins(text, "load simplification "))
    {
        cmd.kind = "loadrs";
        cur_rules = true;
        std::string path = text.substr(20);
        Source s = open_path(path, depth);
        if (!supported) return false;
        if (s.ok && !s.complete && count_sections(s.data) <= 7)
        {
            // An unfinished read can only be a failure, or the file has more sections than needed
            fail_match("ruleset was not read to its end");
            return false;
        }
        if (!load_rules(s)) { cmd.why = s.ok ? (s.err_end ? "read error" : "malformed ruleset") : "cannot open"; return false; }
        return true;
    }
    cmd.kind = "load";
    std::string path = text.substr(5);
    Source s = open_path(path, depth);
    if (!supported) return false;
    if (!s.ok) { cmd.why = "cannot open"; return false; }
    if (depth > 400) { unsup("nesting"); return false; }
    depth++;
    if (depth > max_depth) max_depth = depth;
    bool ok = process(s, false);
    if (!quit) depth--;
    if (s.traced && !s.complete && !quit) fail_match("file " + path + " was not read to its end");
    if (s.err_end) cmds[index].why = "read error";
    else if (!ok) cmds[index].why = "command in file failed";
    return ok;
}

bool Model::command(const std::string &text, Cmd &cmd)
{
    if (text == "quit") { cmd.kind = "quit"; quit = true; quit_depth = depth; return true; }
    if (text.empty() || text[0] == '#') { cmd.kind = "blank"; return true; }
    if (text == "help" || text == "help operators" || text == "license")
    {
        cmd.kind = "help";
        Item it;
        it.k = text == "help" ? Item::HELP : Item::OPAQUE_TEXT;
        if (text == "help") { for (auto &d : st.defs) it.live[d.name] = d.params.size(); cur_fun = true; }
        emit(cmd, it);
        return true;
    }
    if (begins(text, "table ")) return do_table(text, cmd);
    if (text.find('=') != std::string::npos) return do_def(text, cmd);
    if (text == "clear" || begins(text, "clear ")) return do_clear(text, cmd);
    return do_eval(text, cmd);
}

// Returns false if the command failed
bool Model::line(const std::string &raw)
{
    if (!supported || quit) return true;
    if (cmds.size() > 200000) { unsup("too many commands"); return true; }
    std::string text = raw;
    size_t z = text.find('\0');
    bool nul = z != std::string::npos;
    if (nul) text.resize(z);
    size_t index = cmds.size();
    cmds.push_back(Cmd());
    {
        Cmd &c = cmds[index];
        c.text = raw;
        c.depth = depth;
        c.top = top;
        c.from_args = in_args;
    }
    cur_hist = cur_fun = cur_rand = cur_rules = false;
    bool ok;
    if (nul)
    {
        cmds[index].kind = "nul";
        if (!text.empty() && text[0] != '#')
        {
            if (text.compare(0, 2, "zq") != 0) { unsup("NUL line"); return true; }
            Item it; it.k = Item::OPTIONAL; it.text = text;
            emit(cmds[index], it);
        }
        return true;
    }
    if (begins(text, "load ") && text.find('=') == std::string::npos)
    {
        Cmd c;
        bool h = false;
        ok = do_load(text, c, index);
        (void)h;
        cmds[index].kind = c.kind;
        if (!c.why.empty()) cmds[index].why = c.why;
        cmds[index].uses_rules = c.kind == "loadrs";
    }
    else
    {
        ok = command(text, cmds[index]);
        Cmd &c = cmds[index];
        c.uses_hist |= cur_hist;
        c.uses_fun |= cur_fun;
        c.uses_rand |= cur_rand;
        c.uses_rules |= cur_rules;
    }
    cmds[index].fails = !ok;
    if (!ok) any_fail = true;
    return ok;
}

bool Model::process(const Source &src, bool is_stdin)
{
    bool ok = true;
    bool nl = true;
    auto lines = split_lines(src.data, &nl);
    for (size_t i = 0; i < lines.size() && !quit && supported; i++)
    {
        if (i + 1 == lines.size() && !nl && src.err_end) break; // cut off by the error
        if (is_stdin)
        {
            top = (long)i;
            stdin_lines = (long)i + 1;
            if (want_snaps) snaps.push_back(st);
        }
        if (!line(lines[i])) ok = false;
    }
    if (quit) return ok;
    if (is_stdin && want_snaps) snaps.push_back(st);
    if (src.err_end) ok = false;
    return ok;
}

void Model::exec()
{
    if (run && !sc.tty)
    {
        checking = true;
        out_lines = split_lines(run->out, &out_final_nl);
    }
    // Switches, up to the first command
    bool interactive = false;
    size_t ci = sc.args.size();
    for (size_t i = 0; i < sc.args.size(); i++)
    {
        const std::string &a = sc.args[i];
        if (a == "-c" || a == "--commands") { ci = i; break; }
        if (a == "-i" || a == "--interactive") interactive = true;
        else if (a == "-h" || a == "--help" || a == "-v" || a == "--version") info = true;
        else if (a != "-q" && a != "--quiet") { refused = true; refused_arg = a; break; }
    }
    if (refused) { exit_code = 1; info = false; return; }
    if (info) return;
    // Start up
    Source rs = open_path(RULESET_PATH, 0);
    if (!load_rules(rs)) startup_err = true;
    if (!supported) return;
    if (ci < sc.args.size())
    {
        in_args = true;
        for (size_t i = ci + 1; i < sc.args.size() && !quit && supported; i++)
        {
            top = (long)(i - ci);
            if (!line(sc.args[i]) && !quit)
            {
                args_failed = true;
                failed_arg = top;
                any_fail = true;
                break;
            }
        }
        in_args = false;
    }
    if (!args_failed && !quit && (ci == sc.args.size() || interactive))
    {
        Source in;
        in.ok = true;
        reads_stdin = true;
        in.data = sc.in;
        for (auto &f : sc.faults)
        {
            if (f.kind == "eio" && f.target == "stdin" && (size_t)f.a <= in.data.size() && !sc.tty) { in.data.resize(f.a); in.err_end = true; }
        }
        if (!process(in, true)) any_fail = true;
        if (in.err_end && !quit) { stdin_err = true; any_fail = true; }
    }
    exit_code = any_fail ? 1 : 0;
    if (!supported || !checking || !matched) return;
    if (help_pending) { close_help(out_pos, out_lines.size()); out_pos = out_lines.size(); }
    if (matched && out_pos < out_lines.size())
    {
        fail_match("unexpected output '" + head(out_lines[out_pos], 80) + "' after the last command");
        mismatch_cmd = -1;
    }
    if (matched && !out_final_nl && !run->out.empty()) { fail_match("output does not end with a newline"); mismatch_cmd = -1; }
}
