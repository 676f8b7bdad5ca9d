#include "checks.h"
#include <algorithm>

typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- helpers
namespace
{
struct Window { size_t out0 = 0, out1 = 0; size_t err = 0; int64_t live = 0, open = 0; uint64_t bytes = 0, work = 0; };
// What happened between one request for a line of standard input and the next. Index 0: before the first request.
std::vector<Window> windows(const Run &r)
{
    std::vector<Window> w(1);
    size_t out = 0;
    for (auto &e : r.ev)
    {
        if (e.type == EV_SNAP)
        {
            w.back().out1 = out;
            Window n;
            n.out0 = out;
            n.live = e.a;
            n.open = e.b;
            n.bytes = e.off;
            n.work = e.work;
            w.push_back(n);
        }
        else if (e.type == EV_WRITE && e.b > 0)
        {
            if (e.a == 1) out += (size_t)e.b;
            else w.back().err += (size_t)e.b;
        }
    }
    w.back().out1 = out;
    return w;
}
// Opens and successful reads of everything but the sizes of the pieces
std::string reads_of(const Run &r)
{
    std::string s;
    std::map<int, uint64_t> bytes;
    for (auto &e : r.ev)
    {
        if (e.type == EV_OPEN) s += strf("open %s %d\n", r.str.c_str() + e.off, e.a < 0 ? -1 : e.a);
        else if (e.type == EV_READ && e.b > 0) bytes[e.a] += (uint64_t)e.b;
    }
    for (auto &b : bytes) s += strf("%d: %llu bytes\n", b.first, (unsigned long long)b.second);
    return s;
}
std::string diff_text(const std::string &a, const std::string &b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 40 ? i - 40 : 0;
    return strf("byte %zu: '", i) + escape(a.substr(s, 90)) + "' against '" + escape(b.substr(s, 90)) + "'";
}
bool is_prefix(const std::string &p, const std::string &s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }
void drop_faults(Scenario &sc, std::initializer_list<const char*> kinds, const char *target = nullptr)
{
    std::vector<Fault> f;
    for (auto &x : sc.faults)
    {
        bool drop = false;
        for (auto k : kinds) drop |= x.kind == k;
        if (target && x.target != target) drop = false;
        if (!drop) f.push_back(x);
    }
    sc.faults = f;
}
bool fired(const Scenario &sc, const Run &r, const char *kind, const char *target = nullptr)
{
    for (size_t i = 0; i < sc.faults.size() && i < r.fired.size(); i++)
        if (sc.faults[i].kind == kind && r.fired[i] && (!target || sc.faults[i].target == target)) return true;
    return false;
}
bool mentions(const Scenario &sc, const std::string &word)
{
    if (sc.in.find(word) != std::string::npos) return true;
    for (auto &a : sc.args) if (a.find(word) != std::string::npos) return true;
    for (auto &f : sc.files) if (f.first != RULESET_PATH && f.second.find(word) != std::string::npos) return true;
    for (auto &f : sc.faults) if (f.data.find(word) != std::string::npos) return true;
    return false;
}
// Are there faults that cut lines, so that commands are read which are not in the files?
bool has_cut(const Scenario &sc)
{
    for (auto &f : sc.faults) if (f.kind == "truncate" || f.kind == "append" || f.kind == "overwrite" || f.kind == "replace") return true;
    return false;
}
void probe(const std::string &name, bool hit = true) { g_engine.probes[name] += hit ? 1 : 0; }

struct Ctx
{
    const Scenario &sc;
    Verdict &vd;
    void bad(const std::string &cat, const std::string &detail) { vd.v.push_back(Viol{ cat, detail }); }
    // Crash or hang: nothing else to be compared
    bool ended(const Run &r, const char *what, bool hang_matters = true)
    {
        if (r.hang)
        {
            // Nothing can be said if the work to do may really be that large
            Model m(sc, &r);
            m.exec();
            if (hang_matters && m.supported) bad("HANG", strf("%s: ", what) + r.crash_text());
            else vd.discard = "did not terminate";
            return false;
        }
        if (r.crashed()) { bad("CRASH", strf("%s: ", what) + r.crash_text()); return false; }
        return true;
    }
};
std::string cmd_text(const Model &m, long i)
{
    if (i < 0 || i >= (long)m.cmds.size()) return "(end)";
    const Cmd &c = m.cmds[i];
    return strf("command %ld '%s' (%s, depth %d)", i + 1, head(escape(c.text), 120).c_str(), c.kind.c_str(), c.depth);
}

// Commands that failed must have left a message
void errors_reported(Ctx &c, const Model &m, const Run &r)
{
    auto w = windows(r);
    size_t lines = w.size() - 1;
    bool have_windows = (long)lines >= m.stdin_lines;
    if (fired(c.sc, r, "outerr", "stderr")) return;
    std::set<long> done;
    for (size_t i = 0; i < m.cmds.size(); i++)
    {
        const Cmd &x = m.cmds[i];
        if (!x.fails) continue;
        if (x.from_args)
        {
            if (w[0].err == 0 || r.err.empty()) { c.bad("ERRMISSING", cmd_text(m, (long)i) + " failed (" + x.why + ") without a message on standard error"); return; }
            continue;
        }
        if (!have_windows || x.top < 0 || done.count(x.top)) continue;
        done.insert(x.top);
        if (w[(size_t)x.top + 1].err == 0)
        {
            c.bad("ERRMISSING", cmd_text(m, (long)i) + " fails (" + x.why + "), but nothing was written to standard error");
            return;
        }
    }
}
void leaks(Ctx &c, const Run &r, int quit_depth, bool exact)
{
    if (!r.ended) return;
    long lines = 0, streams = 0;
    if (quit_depth >= 0) { lines = 2 * (quit_depth + 1); streams = quit_depth; } // line and a copy of it
    if (!exact) { lines = streams = 1 << 20; }
    if (r.live > r.live_lines) c.bad("LEAK", strf("%llu block(s) of memory not released at the end", (unsigned long long)(r.live - r.live_lines)));
    else if ((long)r.live_lines > lines) c.bad("LEAK", strf("%llu line(s) of input not released at the end, at most %ld expected", (unsigned long long)r.live_lines, lines));
    if (r.open_streams > streams) c.bad("FDLEAK", strf("%lld file(s) still open at the end, at most %ld expected", (long long)r.open_streams, streams));
    if (r.bad_free) c.bad("BADFREE", "memory was released that had not been acquired (or had already been released)");
}

// ---------------------------------------------------------------- properties
void eval_model(Ctx &c, bool (*relevant)(const Cmd *), bool status, bool errors)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    Model m(sc, &r);
    m.exec();
    if (!m.supported) { c.vd.discard = m.unsupported; return; }
    long values = 0;
    for (auto &x : m.cmds) values += !x.items.empty();
    c.vd.nontrivial = values >= 1 && m.cmds.size() >= 2;
    probe("history of 100 results or more", m.st.hist.size() >= 100);
    probe("history of 1000 results or more", m.st.hist.size() >= 1000);
    probe("32 definitions or more alive", m.st.defs.size() >= 32);
    probe("load nested 4 levels or more", m.max_depth >= 4);
    probe("session ended by quit in a loaded file", m.quit_depth > 0);
    probe("command failed", m.any_fail);
    probe("rule of a ruleset applied", std::any_of(m.cmds.begin(), m.cmds.end(), [](const Cmd &x) { return x.uses_rules && x.kind == "eval"; }));
    bool attributed = true;
    if (!m.matched)
    {
        const Cmd *x = m.mismatch_cmd >= 0 && m.mismatch_cmd < (long)m.cmds.size() ? &m.cmds[m.mismatch_cmd] : nullptr;
        // The command whose output is wrong, or one right before it that should have been silent
        attributed = relevant(x);
        for (long i = m.mismatch_cmd - 1; i >= 0 && i < (long)m.cmds.size() && !attributed && m.cmds[i].items.empty(); i--) attributed = relevant(&m.cmds[i]);
        if (attributed) c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch);
        else { c.vd.discard = "other output differs: " + cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch; return; }
    }
    if (status && r.code != m.exit_code)
    {
        std::string why = "no command failed";
        for (size_t i = 0; i < m.cmds.size(); i++) if (m.cmds[i].fails) { why = cmd_text(m, (long)i) + " failed (" + m.cmds[i].why + ")"; break; }
        if (m.stdin_err) why += ", reading standard input failed";
        c.bad("STATUS", strf("exit status %d, expected %s: ", r.code, m.exit_code ? "failure" : "success") + why);
    }
    if (errors && m.matched) errors_reported(c, m, r);
    if (status && m.args_failed && m.matched)
    {
        // Named in an error message: last line of standard error
        auto l = split_lines(r.err);
        std::string last = l.empty() ? "" : l.back();
        std::string n = strf("%ld", m.failed_arg);
        size_t ci = 0;
        while (ci < sc.args.size() && sc.args[ci] != "-c" && sc.args[ci] != "--commands") ci++;
        const std::string &text = sc.args[ci + m.failed_arg];
        bool named = false;
        for (size_t p = last.find(n); p != std::string::npos; p = last.find(n, p + 1))
            if ((p == 0 || !isdigit((unsigned char)last[p - 1])) && (p + n.size() >= last.size() || !isdigit((unsigned char)last[p + n.size()]))) named = true;
        if (!text.empty() && last.find(text) != std::string::npos) named = true;
        if (!named) c.bad("ARGNAME", "argument " + n + " ('" + head(text, 60) + "') failed, but the last message is '" + head(last, 100) + "'");
        probe("failing argument of -c");
    }
}
bool any_cmd(const Cmd *) { return true; }
bool arg_cmd(const Cmd *x) { return x && x->from_args; }
bool hist_cmd(const Cmd *x) { return x && (x->uses_hist || x->kind == "table"); }
bool fun_cmd(const Cmd *x) { return x && (x->uses_fun || x->kind == "help" || x->kind == "def" || x->kind == "clear" || x->kind == "clearall"); }

void eval_C02(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    Model m(sc, &r);
    m.exec();
    if (!m.supported) { c.vd.discard = m.unsupported; return; }
    // The same session with rejected commands left out
    std::set<long> rejected;
    for (auto &x : m.cmds)
        if (x.fails && x.depth == 0 && !x.from_args && !(x.kind == "load" && x.why != "cannot open")) rejected.insert(x.top);
    if (rejected.empty()) { c.vd.discard = "nothing rejected"; return; }
    c.vd.nontrivial = true;
    bool nl = true;
    auto lines = split_lines(sc.in, &nl);
    Strs kept;
    for (size_t i = 0; i < lines.size(); i++) if (!rejected.count((long)i)) kept.push_back(lines[i]);
    Scenario ctl = sc;
    ctl.in = join_lines(kept, nl);
    Run k = g_engine.run(ctl);
    if (!c.ended(k, "session without the rejected commands")) return;
    if (r.out != k.out) c.bad("DIFF", strf("%zu command(s) to be rejected changed the rest of the session: ", rejected.size()) + diff_text(r.out, k.out) + " without them" + (m.matched ? "" : "; " + cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch));
    else errors_reported(c, m, r);
    probe("rejected commands", true);
    std::set<std::string> why;
    for (auto &x : m.cmds) if (x.fails) why.insert(x.kind + ": " + x.why);
    for (auto &s : why) probe("reject " + s);
}

void eval_C04(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    // Control: everything at once
    Scenario ctl = sc;
    drop_faults(ctl, { "chunk", "outshort", "jump" });
    Run k = g_engine.run(ctl);
    if (!c.ended(k, "session with undivided input")) return;
    if (r.out != k.out) c.bad("DIFF", "standard output depends on how input arrives: " + diff_text(r.out, k.out) + " with undivided input");
    else if (r.err != k.err) c.bad("DIFF", "standard error depends on how input arrives: " + diff_text(r.err, k.err) + " with undivided input");
    else if (r.code != k.code) c.bad("DIFF", strf("exit status %d depends on how input arrives (%d with undivided input)", r.code, k.code));
    // With and without newline at the end
    if (!sc.in.empty())
    {
        Scenario nl = sc;
        if (nl.in.back() == '\n') nl.in.pop_back(); else nl.in += '\n';
        if (!(sc.in.size() >= 2 && sc.in.back() == '\n' && sc.in[sc.in.size() - 2] == '\n') && sc.in != "\n")
        {
            Run k2 = g_engine.run(nl);
            if (!c.ended(k2, "session with other end of input")) return;
            if (r.out != k2.out || r.code != k2.code || r.err != k2.err) c.bad("LASTLINE", "a newline after the last line makes a difference: " + (r.out != k2.out ? diff_text(r.out, k2.out) : diff_text(r.err, k2.err)));
        }
    }
    Model m(sc, &r);
    m.exec();
    size_t longest = 0;
    for (auto &l : split_lines(sc.in)) longest = std::max(longest, l.size());
    probe("line longer than 4096 bytes", longest > 4096);
    probe("line longer than 65536 bytes", longest > 65536);
    probe("line with NUL", sc.in.find('\0') != std::string::npos);
    probe("last line without newline", !sc.in.empty() && sc.in.back() != '\n');
    probe("input arrived in pieces", fired(sc, r, "chunk"));
    if (!m.supported) { if (c.vd.v.empty()) c.vd.discard = m.unsupported; return; }
    c.vd.nontrivial = m.cmds.size() >= 2;
    if (!m.matched) c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch);
}

void compare(Ctx &c, const char *mode, const Run &ref, const Run &r, bool err_prefix)
{
    if (ref.out != r.out) c.bad("DIFF", strf("%s: output differs: ", mode) + diff_text(r.out, ref.out) + " when piped");
    else if (err_prefix ? !is_prefix(ref.err, r.err) : ref.err != r.err) c.bad("DIFF", strf("%s: messages differ: ", mode) + diff_text(r.err, ref.err) + " when piped");
    else if (ref.code != r.code) c.bad("DIFF", strf("%s: exit status %d, %d when piped", mode, r.code, ref.code));
}
// Moves ranges of lines to files of their own
void nest(Scenario &sc, Strs &lines, Rng &r, int depth, int &n)
{
    if (depth > 9 || lines.empty()) return;
    size_t a = r.below(lines.size()), b = a + 1 + r.below(lines.size() - a);
    if (r.chance(0.4)) { a = 0; b = lines.size(); }
    Strs inner(lines.begin() + a, lines.begin() + b);
    if (r.chance(0.75)) nest(sc, inner, r, depth + 1, n);
    std::string path = strf("/sim/nest/%d", n++);
    lines.erase(lines.begin() + a, lines.begin() + b);
    lines.insert(lines.begin() + a, "load " + path);
    if (r.chance(0.4) && a > 0)
    {
        Strs before(lines.begin(), lines.begin() + a);
        nest(sc, before, r, depth + 1, n);
        lines.erase(lines.begin(), lines.begin() + a);
        lines.insert(lines.begin(), before.begin(), before.end());
    }
    // Last line of a file needs no newline. But an empty line needs one to be there.
    bool nl = r.chance(0.7) || inner.back().empty();
    sc.files[path] = join_lines(inner, nl);
}
// At a terminal: is every result of a line typed in decorated as the first result of any session is?
void same_mode(Ctx &c, const Scenario &s, const char *what)
{
    Scenario one = s;
    one.in = "1\n";
    one.args.clear();
    one.files.clear();
    one.faults.clear();
    one.tty = true;
    one.knobs["outbuf"] = 0; // What is written shows up at once: windows are exact
    Run r1 = g_engine.run(one);
    if (!c.ended(r1, "terminal session of one command")) return;
    auto w1 = windows(r1);
    if (w1.size() < 2) return;
    std::string shown = strip_ansi(r1.out.substr(w1[1].out0, w1[1].out1 - w1[1].out0));
    size_t at = shown.find("1\n");
    if (at == std::string::npos) return;
    std::string deco = shown.substr(0, at);
    Scenario p = s, t = s;
    p.tty = false;
    t.tty = true;
    t.knobs["outbuf"] = 0;
    Model m(p);
    m.exec();
    if (!m.supported) return;
    Run r = g_engine.run(t);
    if (!c.ended(r, what)) return;
    auto w = windows(r);
    for (size_t i = 0; i < m.cmds.size(); i++)
    {
        const Cmd &x = m.cmds[i];
        if (x.from_args || x.depth != 0 || x.kind != "eval" || x.fails || x.top < 0 || x.top + 1 >= (long)w.size()) continue;
        std::string o = strip_ansi(r.out.substr(w[(size_t)x.top + 1].out0, w[(size_t)x.top + 1].out1 - w[(size_t)x.top + 1].out0));
        if (o.compare(0, deco.size(), deco) == 0 || o.find("\n" + deco) != std::string::npos) continue;
        c.bad("MODE", strf("%s, at a terminal: ", what) + cmd_text(m, (long)i) + " shows '" + head(escape(o), 80) + "', not in the mode the session began with");
        return;
    }
    probe("mode compared at a terminal");
}
void eval_C05(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    Model m(sc, &r);
    m.exec();
    if (!sc.knob("modes"))
    {
        if (!m.supported) { c.vd.discard = m.unsupported; return; }
        c.vd.nontrivial = m.cmds.size() >= 2;
        probe("file changed while it was in use", fired(sc, r, "replace") || fired(sc, r, "append") || fired(sc, r, "delete") || fired(sc, r, "truncate") || fired(sc, r, "overwrite"));
        probe("no file could be opened any more", fired(sc, r, "fdlimit"));
        probe("load nested 10 levels or more", m.max_depth >= 10);
        if (!m.matched) { c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch); return; }
        if (r.code != m.exit_code) c.bad("STATUS", strf("exit status %d, expected %s", r.code, m.exit_code ? "failure" : "success"));
        errors_reported(c, m, r);
        return;
    }
    bool nl = true;
    auto lines = split_lines(sc.in, &nl);
    if (lines.empty() || !m.supported) { c.vd.discard = lines.empty() ? "empty" : m.unsupported; return; }
    c.vd.nontrivial = lines.size() >= 2;
    Rng rng(mix_seed(sc.seed, 5));
    // From a file
    {
        Scenario s = sc;
        s.files["/sim/whole"] = sc.in;
        s.in = "load /sim/whole\n";
        Run k = g_engine.run(s);
        if (!c.ended(k, "loaded from a file")) return;
        compare(c, "loaded from a file", r, k, false);
    }
    // Nested loads
    for (int i = 0; i < 2 && c.vd.v.empty(); i++)
    {
        Scenario s = sc;
        Strs l = lines;
        int n = 0;
        nest(s, l, rng, 0, n);
        if (i) { s.args = { "-c" }; s.args.push_back(l[0]); s.args.insert(s.args.begin(), "-i"); l.erase(l.begin()); }
        s.in = join_lines(l, true);
        if (i)
        {
            Model mm(s);
            mm.exec();
            if (!mm.supported || mm.args_failed || (!s.args.empty() && s.args.back().find('\0') != std::string::npos)) continue;
        }
        Run k = g_engine.run(s);
        if (!c.ended(k, "nested loads")) return;
        compare(c, i ? "argument, then nested loads" : "nested loads", r, k, false);
        if (c.vd.v.empty() && rng.chance(0.5)) same_mode(c, s, i ? "argument, then nested loads" : "nested loads");
        probe("program split into nested files");
    }
    // As arguments, up to the first that fails
    bool nul = sc.in.find('\0') != std::string::npos;
    if (!nul && c.vd.v.empty())
    {
        long first = -1;
        for (auto &x : m.cmds) if (x.depth == 0 && x.fails && first < 0) first = x.top;
        Scenario a = sc;
        a.in.clear();
        a.args = { "-c" };
        for (auto &l : lines) a.args.push_back(l);
        Run k = g_engine.run(a);
        if (!c.ended(k, "given as arguments")) return;
        if (first < 0) compare(c, "given as arguments", r, k, false);
        else
        {
            Scenario p = sc;
            p.in = join_lines(Strs(lines.begin(), lines.begin() + first + 1), true);
            Run ref = g_engine.run(p);
            if (!c.ended(ref, "first part")) return;
            compare(c, "given as arguments", ref, k, true);
            probe("arguments end with a failing one");
        }
        // Some as arguments, the rest from standard input
        if (lines.size() > 1 && c.vd.v.empty())
        {
            size_t cut = 1 + rng.below(lines.size() - 1);
            if (first < 0 || (long)cut <= first)
            {
                Scenario b = sc;
                b.args = { "-i", "-c" };
                for (size_t i = 0; i < cut; i++) b.args.push_back(lines[i]);
                b.in = join_lines(Strs(lines.begin() + cut, lines.end()), true);
                Run kb = g_engine.run(b);
                if (!c.ended(kb, "arguments, then piped")) return;
                compare(c, "arguments, then piped", r, kb, false);
            }
        }
    }
}

// Out of memory
void eval_C07(Ctx &c)
{
    const Scenario &sc = c.sc;
    Scenario base = sc;
    drop_faults(base, { "oom", "linemem" });
    Run b = g_engine.run(base);
    c.vd.hash = b.hash;
    if (b.hang || b.crashed()) { c.vd.discard = "session fails without any fault: " + b.crash_text(); return; }
    std::vector<Fault> tries;
    for (auto &f : sc.faults) if (f.kind == "oom" || f.kind == "linemem") tries.push_back(f);
    long fetched = 0;
    for (auto &e : b.ev) fetched += e.type == EV_GETLINE;
    if (tries.empty())
    {
        Rng r(mix_seed(sc.seed, (uint64_t)sc.knob("oomseed")));
        long n = sc.knob("tries", 10);
        for (long i = 0; i < n; i++)
        {
            Fault f;
            f.kind = "oom";
            switch (r.below(8))
            {
                case 0: f.a = r.range(1, std::min((long)b.allocs, 200l)); break;
                case 1: f.a = std::max(1l, (long)b.allocs - r.range(0, 40)); break;
                default: f.a = r.range(1, (long)b.allocs); break;
            }
            f.b = r.chance(0.5) ? 1 : r.chance(0.5) ? -1 : r.range(2, 6);
            if (fetched > 0 && !sc.tty && r.chance(0.1)) { f.kind = "linemem"; f.a = r.range(1, fetched); }
            tries.push_back(f);
        }
    }
    for (auto &f : tries)
    {
        Scenario s = base;
        s.faults.push_back(f);
        Run r = g_engine.run(s);
        if (r.fired.back() == 0) continue;
        c.vd.nontrivial = true;
        c.vd.hash ^= r.hash * 31;
        probe(f.kind == "linemem" ? "no memory for a line of input" : f.b == 1 ? "single failing allocation" : "several failing allocations");
        std::string at = f.kind == "oom" ? strf("allocation %ld of %llu (%s) failing", f.a, (unsigned long long)b.allocs, f.b < 0 ? "and all after it" : f.b == 1 ? "only" : "and some after it") : strf("no memory for line %ld of input", f.a);
        size_t before = c.vd.v.size();
        if (!c.ended(r, at.c_str())) {}
        else
        {
            if (r.code == 0) c.bad("STATUS", at + ": program ended with success");
            if (r.err.size() == 0) c.bad("ERRMISSING", at + ": no message on standard error");
            if (!is_prefix(r.out, b.out)) c.bad("PREFIX", at + ": output is not a prefix of the output with enough memory: " + diff_text(r.out, b.out));
            else
            {
                // It must not have gone on after the failure
                bool seen = false;
                size_t later = 0;
                for (auto &e : r.ev) { if (e.type == EV_OOM) { seen = true; later = 0; } if (seen && (e.type == EV_OPEN || (e.type == EV_GETLINE && e.a >= 0 && e.b >= 0))) later++; }
                if (later > 0) c.bad("CONTINUED", at + ": program continued with other input");
            }
        }
        if (c.vd.v.size() > before)
        {
            for (size_t i = before; i < c.vd.v.size(); i++) c.vd.v[i].detail = strf("[fault %s %ld %ld] ", f.kind.c_str(), f.a, f.b) + c.vd.v[i].detail;
            return;
        }
    }
}

bool has_line(const std::string &d, const std::string &l)
{
    for (auto &x : split_lines(d)) if (x.c_str() == l) return true;
    return false;
}
void eval_C08(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    c.vd.nontrivial = r.steps > 200;
    if (!c.ended(r, "session", false)) return;
    Model m(sc, &r);
    m.exec();
    bool exact = m.supported;
    int qd = m.quit ? m.quit_depth : -1;
    if (!m.supported)
    {
        bool quit = has_line(sc.in, "quit");
        for (auto &a : sc.args) quit |= a == "quit";
        for (auto &f : sc.files) quit |= has_line(f.second, "quit");
        for (auto &f : sc.faults) quit |= f.data.find("quit") != std::string::npos;
        exact = !quit;
        qd = -1;
    }
    leaks(c, r, qd, exact);
    probe("garbage in session", !m.supported);
    probe("end checked exactly", exact);
    for (auto &e : r.ev) if (e.type == EV_FOREIGN) { c.bad("FOREIGN", strf("unexpected call of %s", r.str.c_str() + e.off)); break; }
    // Uninitialised data: other content of fresh memory must make no difference
    Scenario k = sc;
    k.knobs["fill"] = (sc.knob("fill") ^ 0xFF) & 0xFF;
    k.knobs["stack"] = (sc.knob("stack") ^ 0xFF) & 0xFF;
    Run q = g_engine.run(k);
    if (!c.ended(q, "session with other memory content", false)) return;
    if (q.out != r.out || q.err != r.err || q.code != r.code) c.bad("UNINIT", "result depends on content of fresh memory: " + (q.out != r.out ? diff_text(r.out, q.out) : diff_text(r.err, q.err)));
    leaks(c, q, qd, exact);
}

void eval_C10(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    bool rand = mentions(sc, "rand");
    if (!rand)
    {
        c.vd.nontrivial = true;
        probe("session without rand");
        Rng g(mix_seed(sc.seed, 10));
        for (int i = 0; i < 3; i++)
        {
            Scenario s = sc;
            drop_faults(s, { "clock", "rng", "jump", "notime" });
            Fault f;
            f.kind = "clock"; f.a = i == 0 ? 0 : g.range(-5, 8000000000l); s.faults.push_back(f);
            f.kind = "rng"; f.a = g.range(0, 4); f.b = (long)g.below(1u << 30); s.faults.push_back(f);
            if (i == 2) { f.kind = "notime"; s.faults.push_back(f); }
            if (i == 1) { f.kind = "jump"; f.a = g.range(1, 20); f.b = g.range(-4000000000l, 4000000000l); s.faults.push_back(f); }
            s.knobs["fill"] = i == 0 ? 0 : g.range(0, 255);
            s.knobs["stack"] = i == 0 ? 0 : g.range(0, 255);
            s.knobs["pace"] = i == 0 ? 0 : g.range(1, 7) * (g.chance(0.5) ? 1000 : g.chance(0.5) ? 20 : 100000);
            Run k = g_engine.run(s);
            if (!c.ended(k, "session at another time")) return;
            if (r.out != k.out) { c.bad("DIFF", "output depends on clock, random source or memory content: " + diff_text(r.out, k.out)); return; }
            if (r.err != k.err) { c.bad("DIFF", "messages depend on clock, random source or memory content: " + diff_text(r.err, k.err)); return; }
            if (r.code != k.code) { c.bad("DIFF", "exit status depends on clock, random source or memory content"); return; }
        }
    }
    Model m(sc, &r);
    m.exec();
    if (!m.supported) { if (!rand) return; c.vd.discard = m.unsupported; return; }
    bool used = false;
    for (auto &x : m.cmds) used |= x.uses_rand;
    if (rand && !used) { c.vd.discard = "rand not used"; return; }
    c.vd.nontrivial = true;
    probe("random value drawn", used);
    if (!m.matched && rand)
    {
        // Only if it is the random value that is wrong
        const Cmd *x = m.mismatch_cmd >= 0 ? &m.cmds[m.mismatch_cmd] : nullptr;
        bool seen = false;
        for (long i = 0; i <= m.mismatch_cmd && i < (long)m.cmds.size(); i++) seen |= m.cmds[i].uses_rand;
        if (seen && x && (x->uses_rand || x->uses_hist || x->uses_fun)) c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch);
        else c.vd.discard = "other output differs";
    }
}

Strs words_of(const std::string &s)
{
    Strs w;
    std::string cur;
    for (char ch : s) { if (ch == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) w.push_back(cur);
    return w;
}
// Does line t of a terminal session show line p of a piped session?
bool shows(const std::string &t, const std::string &p, bool *prefixed)
{
    *prefixed = false;
    if (t == p) return true;
    if (t.compare(0, 2, "= ") == 0 && t.substr(2) == p) { *prefixed = true; return true; }
    auto a = words_of(t), b = words_of(p);
    if (b.size() == 2 && a.size() == 3) return a[1] == b[0] && a[2] == b[1]; // table with numbered rows
    return a == b && !b.empty();
}
void eval_C11(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run t = g_engine.run(sc);
    c.vd.hash = t.hash;
    if (!c.ended(t, "terminal session")) return;
    Scenario p = sc;
    p.tty = false;
    p.faults.push_back(Fault{ "chunk", "stdin", 0, 0, "" });
    Run q = g_engine.run(p);
    if (!c.ended(q, "piped session")) return;
    auto wt = windows(t), wq = windows(q);
    bool random = mentions(sc, "rand");
    c.vd.nontrivial = wq.size() > 2;
    probe("hang-up within a line", !sc.in.empty() && sc.in.back() != '\n');
    probe("arguments, then interactive", !sc.args.empty() && sc.args.back() != "-q");
    if (t.code != q.code) c.bad("STATUS", strf("exit status %d at the terminal, %d when piped", t.code, q.code));
    if (random) { c.vd.discard = c.vd.v.empty() ? "" : ""; }
    if (wt.size() != wq.size())
    {
        if (wt.size() < 2 || wq.size() < 2) { c.bad("INPUT", strf("%zu line(s) were asked for at the terminal, %zu when piped", wt.size() - 1, wq.size() - 1)); return; }
        // At the end of input: request that returned nothing
        c.bad("INPUT", strf("%zu line(s) were asked for at the terminal, %zu when piped", wt.size() - 1, wq.size() - 1));
        return;
    }
    Model m(p);
    m.exec();
    auto lines = split_lines(sc.in);
    int styled = -1;
    for (size_t i = 0; i < wt.size(); i++)
    {
        auto lt = split_lines(strip_ansi(t.out.substr(wt[i].out0, wt[i].out1 - wt[i].out0)));
        auto lq = split_lines(strip_ansi(q.out.substr(wq[i].out0, wq[i].out1 - wq[i].out0)));
        std::string what = i == 0 ? "before the first line" : "line " + strf("%zu", i) + " '" + (i <= lines.size() ? head(escape(lines[i - 1]), 80) : "") + "'";
        size_t j = 0, marked = 0, shown = 0;
        for (auto &l : lq)
        {
            bool pre = false;
            size_t j0 = j;
            while (j < lt.size() && !shows(lt[j], l, &pre)) j++;
            if (j == lt.size()) { c.bad("DIFF", what + ": '" + head(escape(l), 80) + "' is missing at the terminal, there: '" + (j0 < lt.size() ? head(escape(lt[j0]), 80) : "") + "'"); return; }
            marked += pre;
            shown++;
            j++;
        }
        size_t results = 0;
        for (auto &l : lt) results += l.compare(0, 2, "= ") == 0;
        if (results > marked) { c.bad("DIFF", what + ": more results at the terminal than when piped"); return; }
        if ((wt[i].err != 0) != (wq[i].err != 0)) { c.bad("DIFF", what + ": message only " + (wt[i].err ? "at the terminal" : "when piped")); return; }
        // Same mode throughout: results of lines typed in are marked either always or never
        if (m.supported && i > 0)
        {
            for (auto &x : m.cmds)
            {
                if (x.from_args || x.depth != 0 || x.top != (long)i - 1 || x.kind != "eval" || x.fails || shown != 1) continue;
                if (lq.size() == 1 && lq[0].compare(0, 2, "= ") == 0) continue;
                int s = marked == 1;
                if (styled >= 0 && s != styled) { c.bad("MODE", what + ": result is displayed in another mode than before"); return; }
                styled = s;
            }
        }
    }
    // Lines must all have been read interactively, when any was
    if (m.supported)
    {
        leaks(c, t, m.quit ? m.quit_depth : -1, true);
        if (!random && m.exit_code != t.code) c.bad("STATUS", strf("exit status %d at the terminal, expected %d", t.code, m.exit_code));
    }
    else if (!has_line(sc.in, "quit")) { bool quit = false; for (auto &f : sc.files) quit |= has_line(f.second, "quit"); for (auto &a : sc.args) quit |= a == "quit"; if (!quit) leaks(c, t, -1, true); }
}

void eval_C12(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    if (!fired(sc, r, "eio")) { c.vd.discard = "no read failed"; return; }
    // The same with files that simply end before the line that is cut off
    Scenario k = sc;
    drop_faults(k, { "eio" });
    Run q = g_engine.run(k);
    if (!c.ended(q, "session without failing reads")) return;
    Model mq(k, &q);
    mq.exec();
    if (!mq.supported) { c.vd.discard = mq.unsupported; return; }
    if (!mq.matched) { c.vd.discard = "output differs without failing reads, too"; return; }
    Model m(sc, &r);
    m.exec();
    if (!m.supported) { c.vd.discard = m.unsupported; return; }
    c.vd.nontrivial = true;
    probe("reading standard input failed", fired(sc, r, "eio", "stdin"));
    probe("reading the ruleset at start up failed", fired(sc, r, "eio", RULESET_PATH));
    if (!m.matched) { c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch); return; }
    if (r.code != m.exit_code) c.bad("STATUS", strf("exit status %d after a failed read, expected %s", r.code, m.exit_code ? "failure" : "success"));
    errors_reported(c, m, r);
    if (m.startup_err && windows(r)[0].err == 0) c.bad("ERRMISSING", "ruleset could not be read at start up, but nothing was written to standard error");
    if (m.stdin_err)
    {
        // Reported after the last line
        auto w = windows(r);
        if ((long)w.size() - 1 > m.stdin_lines && w.back().err == 0) c.bad("ERRMISSING", "reading standard input failed, but nothing was written to standard error");
        else if (r.err.empty()) c.bad("ERRMISSING", "reading standard input failed, but nothing was written to standard error");
    }
}

void eval_C13(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    Scenario k = sc;
    drop_faults(k, { "outshort", "outerr" });
    Run q = g_engine.run(k);
    if (!c.ended(q, "session with working output")) return;
    c.vd.nontrivial = fired(sc, r, "outshort") || fired(sc, r, "outerr");
    if (!c.vd.nontrivial) { c.vd.discard = "output not disturbed"; return; }
    bool e1 = fired(sc, r, "outerr", "stdout"), e2 = fired(sc, r, "outerr", "stderr");
    bool forever1 = false, forever2 = false;
    for (auto &f : sc.faults) if (f.kind == "outerr" && f.b < 0) (f.target == "stdout" ? forever1 : forever2) = true;
    probe("writing standard output failed", e1);
    probe("writing standard error failed", e2);
    if (!e1 && r.out != q.out) c.bad("DIFF", "standard output differs: " + diff_text(r.out, q.out) + " with working output");
    if (!e2 && r.err != q.err) c.bad("DIFF", "standard error differs: " + diff_text(r.err, q.err) + " with working output");
    if (e1 && forever1 && !is_prefix(r.out, q.out)) c.bad("PREFIX", "standard output is not a prefix: " + diff_text(r.out, q.out) + " with working output");
    if (e2 && forever2 && !is_prefix(r.err, q.err)) c.bad("PREFIX", "standard error is not a prefix: " + diff_text(r.err, q.err) + " with working output");
    if (r.code != q.code) c.bad("STATUS", strf("exit status %d, %d with working output", r.code, q.code));
    if (reads_of(r) != reads_of(q)) c.bad("INPUT", "other input has been read: " + diff_text(reads_of(r), reads_of(q)) + " with working output");
}

void eval_C14(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    auto lines = split_lines(sc.in);
    std::vector<size_t> marks;
    for (size_t i = 0; i < lines.size(); i++) if (lines[i] == "#cycle") marks.push_back(i);
    auto w = windows(r);
    if (marks.size() < 4) { c.vd.discard = "too few cycles"; return; }
    if (w.size() - 1 < lines.size()) { c.vd.discard = "session ended early"; return; }
    // Cycles have to return to the same state
    Model m(sc, &r);
    m.want_snaps = true;
    m.exec();
    if (!m.supported) { c.vd.discard = m.unsupported; return; }
    const State &a = m.snaps[marks[1]];
    for (size_t k = 2; k < marks.size(); k++)
    {
        const State &b = m.snaps[marks[k]];
        bool same = a.hist == b.hist && a.defs.size() == b.defs.size() && a.rules == b.rules;
        for (size_t i = 0; same && i < a.defs.size(); i++) same = a.defs[i].name == b.defs[i].name;
        if (!same) { c.vd.discard = "cycle changes the state"; return; }
    }
    c.vd.nontrivial = marks.back() - marks[0] > marks.size();
    // Window i+1 starts when line i is requested: all lines before have been executed
    auto at = [&](size_t k) -> const Window & { return w[marks[k] + 1]; };
    for (size_t k = 3; k < marks.size(); k++)
    {
        if (at(k).live > at(2).live) { c.bad("GROWTH", strf("%lld blocks of memory in use after %zu cycles, %lld after 2", (long long)at(k).live, k, (long long)at(2).live)); return; }
        if (at(k).open > at(2).open) { c.bad("FDGROWTH", strf("%lld files open after %zu cycles, %lld after 2", (long long)at(k).open, k, (long long)at(2).open)); return; }
    }
    size_t n = marks.size() - 1;
    if (n >= 8 && at(n).bytes > at(4).bytes) c.bad("BYTES", strf("%llu bytes of memory in use after %zu cycles, %llu after 4", (unsigned long long)at(n).bytes, n, (unsigned long long)at(4).bytes));
    probe("cycles", true);
}

// Calls that reach beyond the streams and files of the session
std::string foreign_of(const Run &r)
{
    for (auto &e : r.ev) if (e.type == EV_FOREIGN) return r.str.c_str() + e.off;
    return "";
}
void eval_C15(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    std::string f = foreign_of(r);
    if (!f.empty()) c.bad("FOREIGN", "the session reached for something that is not its own: " + f);
    // Every file opened is named in a command, or is the ruleset of the start
    std::set<std::string> named = { RULESET_PATH };
    auto names = [&](const std::string &data)
    {
        for (auto &l : split_lines(data))
        {
            std::string t = l.c_str();
            if (t.compare(0, 5, "load ") == 0) named.insert(t.substr(5));
            if (t.compare(0, 20, "load simplification ") == 0) named.insert(t.substr(20));
        }
    };
    names(sc.in);
    for (auto &a : sc.args) names(a);
    for (auto &x : sc.files) names(x.second);
    for (auto &x : sc.faults) names(x.data);
    std::vector<std::pair<std::string, bool>> seen; // path, only looked for
    long probes = 0;
    for (auto &e : r.ev)
    {
        if (e.type != EV_OPEN && e.type != EV_PROBE) continue;
        std::string path = r.str.c_str() + e.off;
        probes += e.type == EV_PROBE;
        if (!named.count(path) && !has_cut(sc)) { c.bad("UNNAMED", "file '" + head(escape(path), 100) + "' was " + (e.type == EV_OPEN ? "opened" : "looked for") + ", but no command names it"); return; }
        seen.push_back({ path, e.type == EV_PROBE });
    }
    probe("files opened", !seen.empty());
    // In the order of the commands, each by the command that names it
    Model m(sc, &r);
    m.exec();
    bool judged = m.supported && m.matched;
    if (judged)
    {
        size_t i = 0;
        long at = -1; // in m.opened
        for (; i < seen.size(); i++)
        {
            if (at >= 0 && seen[i].first == m.opened[(size_t)at] && !(at + 1 < (long)m.opened.size() && seen[i].first == m.opened[(size_t)at + 1])) continue;
            if (at + 1 < (long)m.opened.size() && seen[i].first == m.opened[(size_t)at + 1])
            {
                at++;
                continue;
            }
            c.bad("ORDER", "file '" + head(escape(seen[i].first), 100) + "' was opened" + (at >= 0 ? " after '" + head(escape(m.opened[(size_t)at]), 100) + "'" : "") + ", where " +
                (at + 1 < (long)m.opened.size() ? "'" + head(escape(m.opened[(size_t)at + 1]), 100) + "' is to be loaded" : std::string("nothing more is to be loaded")));
            return;
        }
        std::map<std::string, long> left;
        for (size_t k = (size_t)(at + 1); k < m.opened.size(); k++) left[m.opened[k]]++;
        if (!left.empty() && probes == 0) { c.bad("ORDER", "file '" + head(escape(left.begin()->first), 100) + "' was to be loaded, but was not opened"); return; }
        c.vd.nontrivial = m.opened.size() > 1;
    }
    else c.vd.nontrivial = seen.size() > 1;
    // Other surroundings
    Scenario k = sc;
    k.knobs["env"] = (long)(1 + (sc.seed >> 20) % 1000000);
    k.knobs["outtty"] = (sc.knob("outtty", sc.tty ? 3 : 0) + 1 + (sc.seed >> 7) % 3) % 4; // output goes elsewhere
    Run q = g_engine.run(k);
    if (!c.ended(q, "session in other surroundings")) return;
    probe("environment looked at", std::any_of(q.ev.begin(), q.ev.end(), [](const Ev &e) { return e.type == EV_ENV; }));
    f = foreign_of(q);
    if (!f.empty() && c.vd.v.empty()) c.bad("FOREIGN", "in other surroundings the session reached for something that is not its own: " + f);
    if (reads_of(r) != reads_of(q)) c.bad("SURROUNDINGS", "other input is read in other surroundings: " + diff_text(reads_of(q), reads_of(r)) + " before");
    else if (r.code != q.code) c.bad("SURROUNDINGS", strf("exit status %d in other surroundings, %d before", q.code, r.code));
    else if (r.out != q.out) c.bad("SURROUNDINGS", "output differs in other surroundings: " + diff_text(q.out, r.out) + " before");
    else if (r.err != q.err) c.bad("SURROUNDINGS", "messages differ in other surroundings: " + diff_text(q.err, r.err) + " before");
}

// Every session comes to its end, and does not get slower on the way
void eval_C17(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (sc.knob("term"))
    {
        // Nothing in it takes long
        if (r.hang) c.bad("HANG", "session of short expressions: " + r.crash_text());
        else if (!r.crashed()) c.vd.nontrivial = true;
        probe("short expressions of any kind");
        if (c.vd.v.empty()) c.ended(r, "session");
        return;
    }
    if (!c.ended(r, "session")) return;
    bool faulty = false;
    for (size_t i = 0; i < sc.faults.size() && i < r.fired.size(); i++) faulty |= r.fired[i] && sc.faults[i].kind != "chunk";
    // What has ended or failed is not asked for again and again, and nothing but input is waited for
    std::map<int, long> none;
    size_t opens = 0;
    for (auto &e : r.ev)
    {
        if (e.type == EV_READ && e.b <= 0) none[e.a]++;
        if (e.type == EV_OPEN) opens++;
    }
    for (auto &x : none)
    {
        if (x.second <= 4) continue;
        c.bad("AGAIN", strf("%ld reads of %s after its end or its failure", x.second, x.first == 0 ? "standard input" : "a file"));
        return;
    }
    if (r.slept_ms > 1000) { c.bad("WAIT", strf("the session waited for %llu ms, not for input", (unsigned long long)r.slept_ms)); return; }
    Model m(sc, &r);
    m.want_snaps = true;
    m.exec();
    if (m.supported && m.matched)
    {
        // Attempts to open: a command opens its file once
        if (opens > 3 * m.opened.size() + 8) { c.bad("AGAIN", strf("%zu attempts to open %zu file(s)", opens, m.opened.size())); return; }
        c.vd.nontrivial = faulty;
    }
    // Output that fails costs nothing
    if (fired(sc, r, "outerr"))
    {
        Scenario k = sc;
        drop_faults(k, { "outshort", "outerr" });
        Run q = g_engine.run(k);
        if (!c.ended(q, "session with working output")) return;
        if (r.work > q.work + q.work / 4 + 10000) { c.bad("EFFORT", strf("%llu steps with failing output, %llu with working output", (unsigned long long)r.work, (unsigned long long)q.work)); return; }
        c.vd.nontrivial = true;
        probe("effort compared: output fails");
    }
    // Commands that change nothing take as long the tenth time as the first
    auto lines = split_lines(sc.in);
    std::vector<size_t> marks;
    auto w = windows(r);
    for (size_t i = 0; i < lines.size() && i + 1 < w.size(); i++) if (lines[i] == "#cycle") marks.push_back(i);
    if (marks.size() < 6) { if (!c.vd.nontrivial) c.vd.discard = "too few cycles"; return; }
    if (!m.supported) { if (!c.vd.nontrivial) c.vd.discard = m.unsupported; return; }
    auto work = [&](size_t k) { return w[marks[k + 1] + 1].work - w[marks[k] + 1].work; };
    const State &a = m.snaps[marks[1]];
    for (size_t k = 2; k < marks.size(); k++)
    {
        const State &b = m.snaps[marks[k]];
        bool same = a.hist == b.hist && a.defs.size() == b.defs.size() && a.rules == b.rules;
        for (size_t i = 0; same && i < a.defs.size(); i++) same = a.defs[i].name == b.defs[i].name;
        if (!same) { if (!c.vd.nontrivial) c.vd.discard = "cycle changes the state"; return; }
    }
    c.vd.nontrivial = true;
    size_t n = marks.size() - 1;
    uint64_t early = std::max(work(1), std::max(work(2), work(3))), late = std::min(work(n - 1), work(n - 2));
    probe("effort compared: cycles");
    if (late > early + early / 200 + 60) c.bad("SLOWER", strf("%llu steps for cycle %zu, %llu for the first ones", (unsigned long long)late, n, (unsigned long long)early));
}

// Other spelling of a switch
std::string other_form(const std::string &a)
{
    static const char *f[][2] = { { "-i", "--interactive" }, { "-q", "--quiet" }, { "-h", "--help" }, { "-v", "--version" }, { "-c", "--commands" } };
    for (auto &p : f) { if (a == p[0]) return p[1]; if (a == p[1]) return p[0]; }
    return a;
}
bool touched(const Run &r, std::string *what)
{
    for (auto &e : r.ev)
    {
        if (e.type == EV_OPEN) { *what = std::string("opened file ") + (r.str.c_str() + e.off); return true; }
        if ((e.type == EV_READ || e.type == EV_GETLINE || e.type == EV_SNAP) && (e.type == EV_SNAP || e.a == 0)) { *what = "read standard input"; return true; }
    }
    return false;
}
bool asked_for_input(const Run &r)
{
    for (auto &e : r.ev) if (e.type == EV_SNAP || ((e.type == EV_READ || e.type == EV_GETLINE) && e.a == 0)) return true;
    return false;
}
void eval_C16(Ctx &c)
{
    const Scenario &sc = c.sc;
    Run r = g_engine.run(sc);
    c.vd.hash = r.hash;
    if (!c.ended(r, "session")) return;
    Model m(sc, &r);
    m.exec();
    size_t ci = 0;
    while (ci < sc.args.size() && sc.args[ci] != "-c" && sc.args[ci] != "--commands") ci++;
    std::string what;
    Rng rg(mix_seed(sc.seed, 1616));
    if (m.refused)
    {
        c.vd.nontrivial = true;
        probe("unknown argument");
        std::string name = "argument '" + head(escape(m.refused_arg), 60) + "' is unknown, but ";
        if (r.code == 0) c.bad("REFUSE", name + "the program ended with success");
        else if (r.err.empty()) c.bad("REFUSE", name + "nothing was written to standard error");
        else if (!r.out.empty()) c.bad("REFUSE", name + "this was written to standard output: '" + head(escape(r.out), 100) + "'");
        else if (touched(r, &what)) c.bad("REFUSE", name + "the program " + what);
        return;
    }
    if (m.info)
    {
        c.vd.nontrivial = true;
        probe("help or version");
        if (r.code != 0) c.bad("INFO", strf("exit status %d of help or version", r.code));
        else if (r.out.empty()) c.bad("INFO", "help or version printed nothing");
        else if (!r.err.empty()) c.bad("INFO", "help or version wrote to standard error: '" + head(escape(r.err), 100) + "'");
        else if (touched(r, &what)) c.bad("INFO", "help or version: the program " + what);
        // Nothing but the switches for it matters
        Scenario k = sc;
        k.args.clear();
        for (size_t i = 0; i < ci; i++)
        {
            std::string o = other_form(sc.args[i]);
            if (sc.args[i].size() > 1 && (sc.args[i].find('h') == 1 || sc.args[i].find('v') == 1 || o.find('h') == 1 || o.find('v') == 1)) k.args.push_back(rg.chance(0.5) ? o : sc.args[i]);
            else if (rg.chance(0.3)) k.args.push_back(o);
        }
        std::sort(k.args.begin(), k.args.end());
        if (rg.chance(0.5)) { k.args.push_back("--commands"); k.args.push_back("1+1"); }
        Run q = g_engine.run(k);
        if (!c.ended(q, "same question in other words")) return;
        if (r.out != q.out || r.code != q.code) c.bad("INFO", "help or version is answered differently: " + diff_text(q.out, r.out) + " before");
        return;
    }
    if (!m.supported) { c.vd.discard = m.unsupported; return; }
    c.vd.nontrivial = !sc.args.empty();
    probe("switches", ci > 0);
    probe("arguments as commands", ci < sc.args.size());
    bool reads = asked_for_input(r);
    if (reads != m.reads_stdin) { c.bad("STDIN", std::string("standard input was ") + (reads ? "" : "not ") + "read, but is " + (m.reads_stdin ? "" : "not ") + "to be"); return; }
    if (!m.matched) { c.bad("OUT", cmd_text(m, m.mismatch_cmd) + ": " + m.mismatch); return; }
    if (r.code != m.exit_code) { c.bad("STATUS", strf("exit status %d, expected %s", r.code, m.exit_code ? "failure" : "success")); return; }
    // Other order, number and form of the switches
    Scenario k = sc;
    Strs sw(sc.args.begin(), sc.args.begin() + ci);
    for (size_t i = 0, n = sw.size(); i < n; i++) if (rg.chance(0.3)) sw.push_back(sw[i]);
    for (auto &a : sw) if (rg.chance(0.6)) a = other_form(a);
    for (size_t i = sw.size(); i > 1; i--) std::swap(sw[i - 1], sw[rg.below(i)]);
    k.args = sw;
    for (size_t i = ci; i < sc.args.size(); i++) k.args.push_back(i == ci && rg.chance(0.6) ? other_form(sc.args[i]) : sc.args[i]);
    if (k.args != sc.args)
    {
        Run q = g_engine.run(k);
        if (!c.ended(q, "same switches in other words")) return;
        if (q.out != r.out) c.bad("FORM", "output depends on form, order or number of switches: " + diff_text(q.out, r.out) + " before");
        else if (q.err != r.err) c.bad("FORM", "messages depend on form, order or number of switches: " + diff_text(q.err, r.err) + " before");
        else if (q.code != r.code) c.bad("FORM", strf("exit status %d depends on form, order or number of switches (%d before)", q.code, r.code));
        else if (reads_of(q) != reads_of(r)) c.bad("FORM", "input read depends on form, order or number of switches");
    }
    // The notice is all that quiet leaves out
    Scenario l = sc;
    Strs rest;
    bool quiet = false;
    for (size_t i = 0; i < sc.args.size(); i++)
    {
        if (i < ci && (sc.args[i] == "-q" || sc.args[i] == "--quiet")) { quiet = true; continue; }
        rest.push_back(sc.args[i]);
    }
    if (!quiet) rest.insert(rest.begin() + rg.below(ci + 1), rg.chance(0.5) ? "-q" : "--quiet");
    l.args = rest;
    Run q = g_engine.run(l);
    if (!c.ended(q, "with and without quiet")) return;
    const Run &silent = quiet ? r : q, &loud = quiet ? q : r;
    if (silent.code != loud.code) c.bad("QUIET", strf("exit status %d with --quiet, %d without", silent.code, loud.code));
    else if (silent.err != loud.err) c.bad("QUIET", "messages depend on --quiet: " + diff_text(silent.err, loud.err) + " without");
    else if (reads_of(silent) != reads_of(loud)) c.bad("QUIET", "input read depends on --quiet");
    else if (!sc.tty && silent.out != loud.out) c.bad("QUIET", "output depends on --quiet, but not at a terminal: " + diff_text(silent.out, loud.out) + " without");
    else if (sc.tty && (loud.out.size() < silent.out.size() || loud.out.compare(loud.out.size() - silent.out.size(), std::string::npos, silent.out) != 0)) c.bad("QUIET", "output after the notice depends on --quiet");
    else if (sc.tty && m.reads_stdin && silent.out.size() == loud.out.size()) c.bad("QUIET", "--quiet makes no difference at the terminal");
}
}

Verdict evaluate(const Scenario &sc)
{
    Verdict v;
    Ctx c{ sc, v };
    const std::string &p = sc.prop;
    if (p == "C01") eval_model(c, hist_cmd, false, false);
    else if (p == "C02") eval_C02(c);
    else if (p == "C03") eval_model(c, fun_cmd, false, false);
    else if (p == "C04") eval_C04(c);
    else if (p == "C05") eval_C05(c);
    else if (p == "C06") eval_model(c, arg_cmd, true, false);
    else if (p == "C07") eval_C07(c);
    else if (p == "C08") eval_C08(c);
    else if (p == "C09") eval_model(c, any_cmd, true, true);
    else if (p == "C10") eval_C10(c);
    else if (p == "C11") eval_C11(c);
    else if (p == "C12") eval_C12(c);
    else if (p == "C13") eval_C13(c);
    else if (p == "C14") eval_C14(c);
    else if (p == "C15") eval_C15(c);
    else if (p == "C16") eval_C16(c);
    else if (p == "C17") eval_C17(c);
    else v.discard = "unknown property";
    if (!v.v.empty()) { v.discard.clear(); v.nontrivial = true; }
    return v;
}

// ---------------------------------------------------------------- minimisation
static bool still(const Scenario &sc, const std::string &cat, long &budget)
{
    if (budget <= 0) return false;
    budget--;
    Verdict v = evaluate(sc);
    for (auto &x : v.v) if (x.cat == cat) return true;
    return false;
}
// Out of memory: which allocation fails shifts when the session gets shorter
static bool still_oom(Scenario &sc, const std::string &cat, long &budget)
{
    if (still(sc, cat, budget)) return true;
    size_t fi = sc.faults.size();
    for (size_t i = 0; i < sc.faults.size(); i++) if (sc.faults[i].kind == "oom" || sc.faults[i].kind == "linemem") fi = i;
    if (fi == sc.faults.size()) return false;
    Scenario b = sc;
    b.faults.erase(b.faults.begin() + fi);
    Run r = g_engine.run(b);
    if (r.hang || r.crashed()) return false;
    Scenario t = sc;
    long lim = std::min((long)r.allocs, 1500l);
    for (long n = sc.faults[fi].kind == "oom" ? (long)r.allocs : 30; n >= 1 && lim > 0; n--, lim--)
    {
        t.faults[fi].a = n;
        long one = 1;
        if (still(t, cat, one)) { sc = t; budget--; return true; }
    }
    budget--;
    return false;
}
static time_t minimise_until = 0; // endless loops take their full CPU limit in each step
static bool check(Scenario &sc, const std::string &cat, long &budget)
{
    if (time(NULL) > minimise_until) { budget = 0; return false; }
    if (sc.prop == "C07") return still_oom(sc, cat, budget);
    return still(sc, cat, budget);
}
// ddmin over a list
template <class T> static bool shrink_list(std::vector<T> &list, std::function<bool(const std::vector<T> &)> ok)
{
    bool any = false;
    for (size_t chunk = std::max((size_t)1, list.size() / 2); ; chunk /= 2)
    {
        for (size_t i = 0; i < list.size();)
        {
            std::vector<T> t(list.begin(), list.begin() + i);
            t.insert(t.end(), list.begin() + std::min(list.size(), i + chunk), list.end());
            if (ok(t)) { list = t; any = true; }
            else i += chunk;
        }
        if (chunk <= 1) break;
    }
    return any;
}
Scenario minimise(const Scenario &sc0, const std::string &cat, long budget)
{
    Scenario sc = sc0;
    minimise_until = time(NULL) + 120;
    if (sc.prop == "C07")
    {
        // Make the fault explicit
        Verdict v = evaluate(sc);
        for (auto &x : v.v)
        {
            if (x.cat != cat) continue;
            char kind[32];
            long a, b;
            if (sscanf(x.detail.c_str(), "[fault %31s %ld %ld]", kind, &a, &b) != 3) break;
            drop_faults(sc, { "oom", "linemem" });
            sc.faults.push_back(Fault{ kind, "", a, b, "" });
            break;
        }
    }
    bool progress = true;
    while (progress && budget > 0)
    {
        progress = false;
        auto attempt = [&](Scenario t) { if (check(t, cat, budget)) { sc = t; progress = true; return true; } return false; };
        // Faults and files as a whole
        {
            auto l = sc.faults;
            shrink_list<Fault>(l, [&](const std::vector<Fault> &x) { Scenario t = sc; t.faults = x; return attempt(t); });
        }
        for (auto &f : std::map<std::string, std::string>(sc.files)) { Scenario t = sc; t.files.erase(f.first); attempt(t); }
        // Lines of input
        {
            bool nl = true;
            auto l = split_lines(sc.in, &nl);
            shrink_list<std::string>(l, [&](const Strs &x) { Scenario t = sc; t.in = join_lines(x, nl); return attempt(t); });
        }
        // Arguments
        {
            auto l = sc.args;
            shrink_list<std::string>(l, [&](const Strs &x) { Scenario t = sc; t.args = x; return attempt(t); });
        }
        for (auto &f : std::map<std::string, std::string>(sc.files))
        {
            if (!sc.files.count(f.first)) continue;
            bool nl = true;
            auto l = split_lines(sc.files[f.first], &nl);
            if (l.size() > 60) { Scenario t = sc; t.files[f.first] = tiny_ruleset({ 1, 2, 3, 4, 5, 6, 7 }); if (sc.files[f.first] != t.files[f.first]) attempt(t); }
            shrink_list<std::string>(l, [&](const Strs &x) { Scenario t = sc; t.files[f.first] = join_lines(x, nl); return attempt(t); });
        }
        // Single lines
        {
            bool nl = true;
            auto l = split_lines(sc.in, &nl);
            for (size_t i = 0; i < l.size() && budget > 0; i++)
            {
                if (l[i].size() < 3) continue;
                for (size_t len = l[i].size() / 2; len >= 1 && budget > 0; len /= 2)
                {
                    for (size_t p = 0; p + len <= l[i].size() && budget > 0;)
                    {
                        auto x = l;
                        x[i].erase(p, len);
                        Scenario t = sc;
                        t.in = join_lines(x, nl);
                        if (x[i] != "" && attempt(t)) l = x;
                        else p += len;
                    }
                    if (l[i].size() > 200 && len < 8) break;
                }
            }
        }
        // Knobs
        static const std::vector<std::pair<const char*, long>> simple = { { "outbuf", 1 }, { "fill", 0xA5 }, { "stack", 0x5A } };
        for (auto &k : simple) if (sc.knobs.count(k.first) && sc.knobs[k.first] != k.second) { Scenario t = sc; t.knobs.erase(k.first); attempt(t); }
        if (sc.knobs.count("outtty")) { Scenario t = sc; t.knobs.erase("outtty"); attempt(t); }
        if (sc.tty && sc.prop != "C11") { Scenario t = sc; t.tty = false; attempt(t); }
    }
    return sc;
}
