// Interface between the simulator (parent side, C++) and the world a simulated ccalc process lives in (child side).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

enum EvType : uint8_t
{
    EV_OPEN = 1, // a=handle or -errno, s=path
    EV_CLOSE,    // a=handle
    EV_READ,     // a=handle, b=n or -errno, off=position of delivered bytes in blob
    EV_WRITE,    // a=1|2, b=n or -errno, off=position in out/err buffer
    EV_GETLINE,  // a=handle, b=length or -1
    EV_SNAP,     // a=live blocks, b=open streams (taken whenever the session asks for its next line of standard input)
    EV_OOM,      // a=allocation number, b=size
    EV_TIME,     // a=value
    EV_RAND,     // a=value
    EV_EDIT,     // a=index of fault
    EV_EXIT,     // a=code
    EV_PROBE,    // a=0 or -errno, s=path (file looked for without opening it)
    EV_FOREIGN,  // unexpected call, s=name
    EV_ENV,      // first look at the environment, s=name of variable
};

struct Ev
{
    uint8_t type;
    int32_t a;
    int64_t b;
    uint64_t off;
    uint64_t stamp; // virtual time in ms
    uint64_t work;  // basic blocks of the program executed until here
};

// As many files as a process usually may have open at once (RLIMIT_NOFILE of 1024)
static const int64_t MAX_OPEN_STREAMS = 1000;

struct Fault
{
    std::string kind;   // see DESIGN.md
    std::string target; // stream: "stdin", "stdout", "stderr" or path
    long a = 0, b = 0;
    std::string data;
};

struct Scenario
{
    std::string prop;
    uint64_t seed = 0;
    std::string variant = "plain"; // plain | asan | norl
    bool tty = false;
    std::vector<std::string> args; // without program name
    std::string in;                // standard input
    std::map<std::string, std::string> files;
    std::vector<Fault> faults;
    std::map<std::string, long> knobs;
    long knob(const char *k, long d = 0) const { auto it = knobs.find(k); return it == knobs.end() ? d : it->second; }
};

#define MAX_EV   (1u << 22)
#define OUT_CAP  (24u << 20)
#define ERR_CAP  (8u << 20)
#define BLOB_CAP (24u << 20)
#define STR_CAP  (1u << 20)
#define MAX_FIRED 64
#define COV_CAP  (1u << 22)

struct Shared
{
    uint64_t hash;       // running hash over everything that happened
    uint64_t steps;      // seam calls
    uint64_t work;       // basic blocks of the program executed
    uint64_t clock_ms;   // virtual time
    uint64_t slept_ms;   // part of it the program asked to wait for
    uint64_t allocs, live, live_bytes, peak_bytes;
    uint64_t live_lines; // at the end: live blocks holding a line of input (subset of live)
    int64_t open_streams, max_open;
    uint64_t bad_free;
    uint32_t nev;
    uint64_t nout, nerr, nblob, nstr;
    uint32_t overflow;   // a buffer was too small: run away
    uint32_t confined;   // system calls are filtered
    uint32_t ended;      // regular exit handlers ran
    int32_t exit_code;
    uint32_t fired[MAX_FIRED]; // per fault of scenario
    Ev ev[MAX_EV];
    char out[OUT_CAP];
    char err[ERR_CAP];
    char blob[BLOB_CAP];
    char str[STR_CAP];
    uint8_t cov[COV_CAP]; // basic blocks of the program reached by any execution so far
};

void sim_child_main(const Scenario &sc, Shared *sh); // Does not return
