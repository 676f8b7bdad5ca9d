#pragma once
#include "seam.h"
#include <functional>
#include <set>
#include <memory>
#include <string.h>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); } // inclusive
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

uint64_t hash_str(const std::string &s);
uint64_t mix_seed(uint64_t a, uint64_t b);

// Result of one simulated execution
struct Run
{
    bool ended = false;   // regular exit
    int code = -1;        // exit status
    int sig = 0;          // killed by signal
    bool asan = false;    // sanitizer report
    bool hang = false;    // cpu limit or run away
    std::string out, err;
    std::string report;   // head of sanitizer report
    std::vector<Ev> ev;
    std::string blob, str;
    std::vector<uint32_t> fired;
    uint64_t hash = 0, steps = 0, work = 0, clock_ms = 0, slept_ms = 0, allocs = 0, live = 0, live_lines = 0, bad_free = 0, peak = 0;
    int64_t open_streams = 0, max_open = 0;
    bool crashed() const { return sig != 0 || asan || (!ended && !hang); }
    std::string crash_text() const;
};

struct Engine
{
    Shared *sh = nullptr;
    int errfd = -1;
    uint64_t runs = 0, steps = 0, sim_ms = 0, cpu_ms = 0, max_cpu_ms = 0, max_cpu_seed = 0;
    std::map<std::string, uint64_t> fired;          // fault kind -> times fired
    std::map<std::string, uint64_t> fired_runs;     // fault kind -> runs in which it fired
    std::vector<uint64_t> hashes;                   // trace hashes, for distinct counting
    uint64_t log_hash = 1469598103934665603ull;     // over all traces in order
    std::map<std::string, uint64_t> probes;         // rare conditions hit
    void start();           // to be called first in main
    Run run(const Scenario &sc);
    std::vector<uint32_t> covered() const; // basic blocks reached so far
    uint64_t work = 0;
private:
    char *text = nullptr;   // scenario for the next execution
    int to_zygote = -1, from_zygote = -1;
};
#define TEXT_CAP (256u << 20)
extern Engine g_engine;
extern const char *g_variant; // of this executable

std::string escape(const std::string &s);
bool unescape(const std::string &s, std::string *out);
std::string scenario_to_text(const Scenario &sc);
bool scenario_from_text(const std::string &text, Scenario *out, std::string *err);

std::vector<std::string> split_lines(const std::string &data, bool *final_newline = nullptr);
std::string join_lines(const std::vector<std::string> &lines, bool final_newline);
std::string strip_ansi(const std::string &s);
std::string normalize_zero(const std::string &tok);
std::string head(const std::string &s, size_t n = 300);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define RULESET_PATH "/sim/etc/simplification.ruleset"
