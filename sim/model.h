// Reference model: a small interpreter of the part of ccalc's language the workloads use.
#pragma once
#include "core.h"

extern const std::string g_wide_rule, g_too_wide_rule;
extern const std::vector<std::string> g_list_misuse;
struct Ast;
typedef std::shared_ptr<Ast> AstP;
struct Ast
{
    enum K { NUM, VAR, OP, RANDC } k = NUM;
    double v = 0;          // NUM; RANDC: bound value
    std::string s;         // VAR name, OP name
    std::vector<AstP> c;
    long id = 0; double lo = 0, hi = 0; // RANDC
};

struct Def { std::string name; std::vector<std::string> params; AstP body; };

// A rule of a tiny ruleset: marker(x) -> x+k, if the type of x is one of those in the mask
struct Rule
{
    std::string marker; long k = 0; int mask = 7; // VAR 1, OP 2, CONST 4
    bool operator==(const Rule &o) const { return marker == o.marker && k == o.k && mask == o.mask; }
};

struct Rules
{
    bool loaded = false, full = false;
    std::vector<Rule> section[7];
    bool operator==(const Rules &o) const
    {
        for (int i = 0; i < 7; i++) if (!(section[i] == o.section[i])) return false;
        return loaded == o.loaded && full == o.full;
    }
};

struct Item
{
    enum K { EXACT, VALUE, SYM, TABLE, HELP, OPAQUE_TEXT, OPTIONAL, RAND } k = EXACT;
    std::string text;                   // EXACT, OPTIONAL
    double v = 0;                       // VALUE
    std::vector<std::pair<double, std::string>> rows; // TABLE: x and printed result or "Error" or "R lo hi"
    bool fold = false; double foldv = 0;
    double lo = 0, hi = 0;              // RAND
    std::map<std::string, size_t> live; // HELP: name -> arity
    AstP expr;                          // SYM: what has to be printed, if known
};

struct Cmd
{
    std::string text, kind; // eval def clear clearall load loadrs table help quit blank nul
    int depth = 0;
    long top = -1;          // index of the line of standard input or argument it belongs to
    bool from_args = false;
    bool fails = false;
    bool uses_hist = false, uses_fun = false, uses_rand = false, uses_rules = false;
    std::string why;
    std::vector<Item> items;
};

struct State
{
    std::vector<double> hist;
    std::vector<Def> defs;
    Rules rules;
    bool was_full = false; // the shipped ruleset has been in force: definitions may be in a form unknown
    const Def *find(const std::string &n) const { for (auto &d : defs) if (d.name == n) return &d; return nullptr; }
};

struct Model
{
    const Scenario &sc;
    const Run *run = nullptr;  // trace, needed for files that are edited meanwhile and to bind random values
    // result
    bool supported = true;
    std::string unsupported;
    bool too_big = false;      // unsupported because some expression or table grows too large
    std::vector<Cmd> cmds;
    std::vector<State> snaps;  // state before each line of standard input, when asked for
    bool want_snaps = false;
    int exit_code = 0;
    bool startup_err = false;
    bool any_fail = false;
    bool stdin_err = false;    // standard input ended by a read error
    bool args_failed = false; long failed_arg = 0;
    bool quit = false; int quit_depth = -1;
    long stdin_lines = 0;      // executed top level lines
    State st;
    // first mismatch between model and actual output
    bool matched = true;
    std::string mismatch;
    long mismatch_cmd = -1;
    std::vector<std::string> opened;  // paths to be opened, in order
    bool refused = false; std::string refused_arg; // an argument is unknown: nothing is done
    bool info = false;         // help or version only
    bool reads_stdin = false;  // standard input is used
    int max_depth = 0;

    Model(const Scenario &s, const Run *r = nullptr) : sc(s), run(r) {}
    void exec();

private:
    std::vector<std::string> out_lines; size_t out_pos = 0; bool out_final_nl = true; bool checking = false;
    bool help_pending = false; std::map<std::string, size_t> help_live; bool help_verify = false; long help_cmd = -1;
    std::map<std::string, int> opens;
    size_t trace_pos = 0;
    int depth = 0;
    long top = -1; bool in_args = false;
    long rand_ids = 0;
    long steps = 0;
    bool cur_hist = false, cur_fun = false, cur_rand = false, cur_rules = false;

    struct Source { bool ok = false; std::string data; bool err_end = false; bool traced = false; bool complete = true; };
    Source open_path(const std::string &path, int open_now);
    bool process(const Source &src, bool is_stdin);
    bool line(const std::string &text);
    bool command(const std::string &text, Cmd &cmd);
    bool do_eval(const std::string &text, Cmd &cmd);
    bool do_def(const std::string &text, Cmd &cmd);
    bool do_clear(const std::string &text, Cmd &cmd);
    bool do_table(const std::string &text, Cmd &cmd);
    bool do_load(const std::string &text, Cmd &cmd, size_t index);
    bool load_rules(const Source &src);
    void unsup(const std::string &why) { if (supported) { supported = false; unsupported = why; } }
    void emit(Cmd &cmd, const Item &it);
    void fail_match(const std::string &why);
    std::string read_back(const AstP &expr, const std::string &got);
    bool at(const AstP &a, const std::map<std::string, double> &x, double *out);
    void close_help(size_t from, size_t to);

    enum PR { OK, REJECT, UNSUP };
    struct Tok { char t; std::string s; };
    std::vector<Tok> toks; size_t tp = 0;
    PR tokenize(const std::string &s);
    PR parse(const std::string &s, AstP *out);
    PR p_expr(AstP *out);
    PR p_operand(AstP *out);
    PR p_postfix(AstP *out);
    bool derive(AstP a, AstP *out);
    // Evaluates constant subtrees: false if evaluation fails
    bool reduce(AstP &a);
    bool value(const AstP &a, double *out);
    AstP rewrite(const AstP &a);
    static bool has_var(const AstP &a);
    static void vars(const AstP &a, std::set<std::string> &out);
    static size_t size(const AstP &a);
    bool apply(const std::string &op, const std::vector<double> &x, double *out);
    bool prepared(const std::string &s, AstP *out); // parse + reduce + rewrite; false = rejected (or unsupported)
};

const std::set<std::string> &builtin_functions();
std::string cond_with(const std::string &cond, const std::string &p);
extern const std::vector<std::string> g_markers;
extern const std::vector<std::pair<std::string, int>> g_conds; // constraints on x and their masks, -1: malformed
std::string tiny_ruleset(const std::vector<long> &ks); // 7 offsets, 0 = identity, <0 = no rule in this section
const std::string &full_ruleset();
std::string fmt_value(double v);
