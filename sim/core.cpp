#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <algorithm>

Engine g_engine;
char **saved_argv;

extern "C" const char *__asan_default_options()
{
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:symbolize=0:"
           "max_malloc_fill_size=0:detect_stack_use_after_return=0:handle_abort=0:print_legend=0:"
           "quarantine_size_mb=16:malloc_context_size=8:check_printf=0";
}

uint64_t hash_str(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 0x100000001B3ull;
    return h;
}
uint64_t mix_seed(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b);
    r.next();
    return r.next() ^ b;
}
std::string strf(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char *p = NULL;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string r(p, n < 0 ? 0 : n);
    free(p);
    return r;
}
std::string head(const std::string &s, size_t n)
{
    if (s.size() <= n) return s;
    return s.substr(0, n) + strf("...(%zu bytes)", s.size());
}

std::string Run::crash_text() const
{
    if (hang) return "did not terminate";
    if (asan) return "memory error: " + head(report, 400);
    if (sig) return strf("killed by signal %d (%s)", sig, strsignal(sig));
    if (!ended) return strf("ended irregularly with status %d", code);
    return "";
}

struct Reply { int status; struct rusage ru; };

// One execution, in a process of its own that has done nothing before but read its scenario
static void child(Shared *sh, const char *text, size_t len, int errfd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { 20, 23 };
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rc);
    alarm(300);
    int null = open("/dev/null", O_RDONLY);
    if (null >= 0) { dup2(null, 0); close(null); }
    lseek(errfd, 0, SEEK_SET);
    dup2(errfd, 2);
    dup2(errfd, 1);
    Scenario sc;
    std::string err;
    if (!scenario_from_text(std::string(text, len), &sc, &err)) { fprintf(stderr, "scenario: %s\n", err.c_str()); _exit(96); }
    sim_child_main(sc, sh);
    _exit(98);
}

// Executions are forked from a process that stays as it was at the start of the program, so that even what depends on addresses
// and contents of the heap is the same whatever has been simulated before
void Engine::start()
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && getenv("SIM_REEXEC") == NULL && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1)
    {
        setenv("SIM_REEXEC", "1", 1);
        extern char **environ;
        char **av = saved_argv;
        execve("/proc/self/exe", av, environ);
    }
    sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    text = (char*)mmap(NULL, TEXT_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || text == MAP_FAILED) { perror("mmap"); exit(2); }
    errfd = memfd_create("report", 0);
    int a[2], b[2];
    if (pipe(a) != 0 || pipe(b) != 0) { perror("pipe"); exit(2); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(a[1]);
        close(b[0]);
        uint64_t len;
        while (read(a[0], &len, sizeof(len)) == (ssize_t)sizeof(len))
        {
            Reply rep;
            memset(&rep, 0, sizeof(rep));
            pid_t c = fork();
            if (c == 0)
            {
                close(a[0]);
                close(b[1]);
                child(sh, text, len, errfd);
            }
            if (c < 0) rep.status = -1;
            else while (wait4(c, &rep.status, 0, &rep.ru) < 0) if (errno != EINTR) _exit(2);
            if (write(b[1], &rep, sizeof(rep)) != (ssize_t)sizeof(rep)) _exit(2);
        }
        _exit(0);
    }
    close(a[0]);
    close(b[1]);
    to_zygote = a[1];
    from_zygote = b[0];
    fcntl(to_zygote, F_SETFD, FD_CLOEXEC);
    fcntl(from_zygote, F_SETFD, FD_CLOEXEC);
}

std::vector<uint32_t> Engine::covered() const
{
    std::vector<uint32_t> v;
    for (uint32_t i = 0; i < COV_CAP; i++) if (sh->cov[i]) v.push_back(i);
    return v;
}

Run Engine::run(const Scenario &sc)
{
    // Reset counters only, buffers are overwritten
    memset(sh, 0, offsetof(Shared, ev));
    sh->hash = 0xcbf29ce484222325ull;
    if (ftruncate(errfd, 0) != 0) {}
    std::string t = scenario_to_text(sc);
    if (t.size() > TEXT_CAP) { fprintf(stderr, "scenario too large\n"); exit(2); }
    memcpy(text, t.data(), t.size());
    uint64_t len = t.size();
    Reply rep;
    if (write(to_zygote, &len, sizeof(len)) != (ssize_t)sizeof(len) || read(from_zygote, &rep, sizeof(rep)) != (ssize_t)sizeof(rep) || rep.status == -1)
    {
        fprintf(stderr, "executions can not be started\n");
        exit(2);
    }
    int status = rep.status;
    const struct rusage &ru = rep.ru;
    if (WIFEXITED(status) && (WEXITSTATUS(status) == 96 || WEXITSTATUS(status) == 98) && !sh->ended) { fprintf(stderr, "execution did not start\n"); exit(2); }
    uint64_t cpu = (uint64_t)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (uint64_t)(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
    cpu_ms += cpu;
    if (cpu > max_cpu_ms && !WIFSIGNALED(status)) { max_cpu_ms = cpu; max_cpu_seed = sc.seed; }
    Run r;
    r.ended = sh->ended != 0;
    if (WIFSIGNALED(status))
    {
        r.sig = WTERMSIG(status);
        if (r.sig == SIGXCPU || r.sig == SIGKILL || r.sig == SIGALRM) { r.hang = true; r.sig = 0; }
    }
    else
    {
        r.code = WEXITSTATUS(status);
        if (!r.ended && sh->overflow) r.hang = true;
        else if (r.code == 99 && !r.ended) r.asan = true;
    }
    if (r.asan || r.sig)
    {
        char buf[4096];
        ssize_t n = pread(errfd, buf, sizeof(buf), 0);
        if (n > 0)
        {
            std::string rep(buf, n);
            if (getenv("SIM_REPORT")) fprintf(stderr, "%s\n", rep.c_str());
            size_t p = rep.find("ERROR:");
            if (p != std::string::npos)
            {
                rep = rep.substr(p);
                size_t nl = rep.find('\n');
                rep = rep.substr(0, nl);
                // addresses vary
                size_t a = rep.find(" on ");
                if (a != std::string::npos) rep = rep.substr(0, a);
            }
            else rep = head(rep, 200);
            r.report = rep;
        }
    }
    r.work = sh->work;
    r.slept_ms = sh->slept_ms;
    work += r.work;
    r.out.assign(sh->out, sh->nout);
    r.err.assign(sh->err, sh->nerr);
    r.ev.assign(sh->ev, sh->ev + sh->nev);
    r.blob.assign(sh->blob, sh->nblob);
    r.str.assign(sh->str, sh->nstr);
    r.fired.assign(sh->fired, sh->fired + std::min((size_t)MAX_FIRED, sc.faults.size()));
    r.hash = r.hang ? 0xdead : sh->hash; // how far it came is a matter of speed
    r.steps = sh->steps;
    r.clock_ms = sh->clock_ms;
    r.allocs = sh->allocs;
    r.live = sh->live;
    r.live_lines = sh->live_lines;
    r.bad_free = sh->bad_free;
    r.peak = sh->peak_bytes;
    r.open_streams = sh->open_streams;
    r.max_open = sh->max_open;
    runs++;
    steps += r.steps;
    sim_ms += r.clock_ms;
    std::set<std::string> kinds;
    for (size_t i = 0; i < r.fired.size(); i++)
    {
        if (r.fired[i])
        {
            std::string k = sc.faults[i].kind;
            if (k == "eio" || k == "fopen" || k == "outerr") k += ":" + (sc.faults[i].data.empty() ? std::string("EIO") : sc.faults[i].data);
            fired[k] += r.fired[i];
            if (kinds.insert(k).second) fired_runs[k]++;
        }
    }
    hashes.push_back(r.hash);
    log_hash = (log_hash ^ r.hash ^ (uint64_t)status) * 0x100000001B3ull;
    log_hash ^= log_hash >> 31;
    return r;
}

// ---------------------------------------------------------------- text form of scenarios (replay files)
std::string escape(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += strf("\\x%02x", c);
        else r += (char)c;
    }
    return r;
}
static std::string escape_target(const std::string &s)
{
    std::string r;
    for (char c : escape(s)) { if (c == ' ') r += "\\x20"; else r += c; }
    return r;
}
bool unescape(const std::string &s, std::string *out)
{
    out->clear();
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] != '\\') { *out += s[i]; continue; }
        if (++i >= s.size()) return false;
        if (s[i] == '\\') *out += '\\';
        else if (s[i] == 'n') *out += '\n';
        else if (s[i] == 'x')
        {
            if (i + 2 >= s.size()) return false;
            *out += (char)strtol(s.substr(i + 1, 2).c_str(), NULL, 16);
            i += 2;
        }
        else return false;
    }
    return true;
}
std::vector<std::string> split_lines(const std::string &data, bool *final_newline)
{
    std::vector<std::string> r;
    size_t p = 0;
    while (p < data.size())
    {
        size_t nl = data.find('\n', p);
        if (nl == std::string::npos) { r.push_back(data.substr(p)); p = data.size(); if (final_newline) *final_newline = false; return r; }
        r.push_back(data.substr(p, nl - p));
        p = nl + 1;
    }
    if (final_newline) *final_newline = true;
    return r;
}
std::string join_lines(const std::vector<std::string> &lines, bool final_newline)
{
    std::string r;
    for (size_t i = 0; i < lines.size(); i++)
    {
        r += lines[i];
        if (i + 1 < lines.size() || final_newline) r += '\n';
    }
    return r;
}
static void data_to_text(std::string &t, const char *tag, const std::string &data)
{
    size_t p = 0;
    while (p < data.size())
    {
        size_t nl = data.find('\n', p);
        size_t e = nl == std::string::npos ? data.size() : nl + 1;
        t += std::string("  ") + tag + " " + escape(data.substr(p, e - p)) + "\n";
        p = e;
    }
}
std::string scenario_to_text(const Scenario &sc)
{
    std::string t = "ccalc-simulation 1\n";
    t += "property " + sc.prop + "\n";
    t += strf("seed %llu\n", (unsigned long long)sc.seed);
    t += "variant " + sc.variant + "\n";
    t += std::string("terminal ") + (sc.tty ? "1" : "0") + "\n";
    for (auto &a : sc.args) t += "arg " + escape(a) + "\n";
    for (auto &k : sc.knobs) t += strf("knob %s %ld\n", k.first.c_str(), k.second);
    for (auto &f : sc.faults)
    {
        t += strf("fault %s %s %ld %ld %s\n", f.kind.c_str(), (f.target.empty() ? std::string("-") : f.target == "-" ? std::string("\\x2d") : escape_target(f.target)).c_str(), f.a, f.b, escape(f.data).c_str());
    }
    for (auto &f : sc.files)
    {
        t += "file " + escape(f.first) + "\n";
        data_to_text(t, "|", f.second);
    }
    t += "stdin\n";
    data_to_text(t, "<", sc.in);
    t += "end\n";
    return t;
}
bool scenario_from_text(const std::string &text, Scenario *out, std::string *err)
{
    *out = Scenario();
    std::string *sink = nullptr;
    bool first = true, ended = false;
    for (auto &line : split_lines(text))
    {
        if (first) { if (line != "ccalc-simulation 1") { *err = "bad header"; return false; } first = false; continue; }
        if (line.empty() || line[0] == ';') continue;
        if (ended) continue;
        size_t sp = line.find(' ');
        std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1), u;
        if (k.empty()) // data line
        {
            if (!sink || line.size() < 4) { *err = "stray data"; return false; }
            if (!unescape(line.substr(4), &u)) { *err = "bad escape"; return false; }
            *sink += u;
        }
        else if (k == "property") out->prop = v;
        else if (k == "seed") out->seed = strtoull(v.c_str(), NULL, 10);
        else if (k == "variant") out->variant = v;
        else if (k == "terminal") out->tty = v == "1";
        else if (k == "arg") { if (!unescape(v, &u)) return false; out->args.push_back(u); }
        else if (k == "knob") { size_t q = v.find(' '); out->knobs[v.substr(0, q)] = atol(v.substr(q + 1).c_str()); }
        else if (k == "fault")
        {
            Fault f;
            std::vector<std::string> parts;
            size_t p = 0;
            for (int i = 0; i < 4; i++)
            {
                size_t q = v.find(' ', p);
                if (q == std::string::npos) { *err = "bad fault"; return false; }
                parts.push_back(v.substr(p, q - p));
                p = q + 1;
            }
            f.kind = parts[0];
            if (!unescape(parts[1], &f.target)) return false;
            if (parts[1] == "-") f.target = "";
            f.a = atol(parts[2].c_str());
            f.b = atol(parts[3].c_str());
            if (!unescape(v.substr(p), &f.data)) return false;
            out->faults.push_back(f);
        }
        else if (k == "file") { if (!unescape(v, &u)) return false; out->files[u] = ""; sink = &out->files[u]; }
        else if (k == "stdin") sink = &out->in;
        else if (k == "end") { sink = nullptr; ended = true; }
        else { *err = "unknown key " + k; return false; }
    }
    return !first;
}

std::string strip_ansi(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; }
        r += s[i];
    }
    return r;
}
std::string normalize_zero(const std::string &t)
{
    if (t.size() > 1 && t[0] == '-' && t.find_first_not_of("0.", 1) == std::string::npos) return t.substr(1);
    if (t == "-nan") return "nan";
    return t;
}
