// Child side: everything a simulated ccalc process sees of the world. All decisions come from the scenario.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "seam.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <limits.h>
#include <ucontext.h>
#include <sys/select.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <memory>
#include <unordered_map>
#include <unordered_set>

extern "C" int ccalc_main(int argc, char **argv, char **envp);

static Shared *S;
static const Scenario *SC;
static bool g_active = false;

// ---------------------------------------------------------------- decisions
static uint64_t g_rng;
static uint64_t next_rng()
{
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void mix(uint64_t v)
{
    S->hash = (S->hash ^ v) * 0x100000001B3ull;
    S->hash ^= S->hash >> 29;
}
static void mixs(const char *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 0x100000001B3ull;
    mix(h);
}

static void ev(uint8_t type, int32_t a, int64_t b = 0, uint64_t off = 0)
{
    S->steps++;
    if (type != EV_SNAP) { mix(type); mix((uint64_t)a); mix((uint64_t)b); }
    if (S->nev >= MAX_EV) { S->overflow = 1; _exit(97); }
    Ev &e = S->ev[S->nev++];
    e.type = type; e.a = a; e.b = b; e.off = off; e.stamp = S->clock_ms; e.work = S->work;
}

// Called at the start of every basic block of the program
extern "C" void __sanitizer_cov_trace_pc()
{
    if (S == NULL) return;
    S->work++;
    S->cov[((uintptr_t)__builtin_return_address(0) - (uintptr_t)&ccalc_main) & (COV_CAP - 1)] = 1;
}

static uint64_t put_str(const char *s)
{
    size_t n = strlen(s) + 1;
    if (S->nstr + n > STR_CAP) { S->overflow = 1; _exit(97); }
    uint64_t off = S->nstr;
    memcpy(S->str + off, s, n);
    S->nstr += n;
    return off;
}

static void foreign(const char *name) { if (g_active) ev(EV_FOREIGN, 0, 0, put_str(name)); }

// ---------------------------------------------------------------- heap
struct Blk { void *p; size_t n; uint32_t kind; };
#define TAB (1u << 21)
static Blk g_tab[TAB];
static uint32_t tab_slot(void *p)
{
    uint64_t h = (uint64_t)p * 0x9E3779B97F4A7C15ull;
    uint32_t i = (uint32_t)(h >> 43) & (TAB - 1);
    while (g_tab[i].p != NULL && g_tab[i].p != p) i = (i + 1) & (TAB - 1);
    return i;
}
static void track(void *p, size_t n, uint32_t kind)
{
    if (p == NULL) return;
    uint32_t i = tab_slot(p);
    g_tab[i] = Blk{ p, n, kind };
    S->live++;
    S->live_bytes += n;
    if (S->live_bytes > S->peak_bytes) S->peak_bytes = S->live_bytes;
    if (S->live > TAB / 2 || S->live_bytes > (1ull << 31)) { S->overflow = 2; _exit(97); }
}
static bool untrack(void *p, size_t *n)
{
    uint32_t i = tab_slot(p);
    if (g_tab[i].p == NULL) return false;
    if (n) *n = g_tab[i].n;
    S->live--;
    S->live_bytes -= g_tab[i].n;
    // backward shift deletion
    uint32_t j = i;
    while (true)
    {
        g_tab[i].p = NULL;
        while (true)
        {
            j = (j + 1) & (TAB - 1);
            if (g_tab[j].p == NULL) return true;
            uint32_t k = (uint32_t)(((uint64_t)g_tab[j].p * 0x9E3779B97F4A7C15ull) >> 43) & (TAB - 1);
            bool stay = i <= j ? (i < k && k <= j) : (i < k || k <= j);
            if (!stay) break;
        }
        g_tab[i] = g_tab[j];
        i = j;
    }
}

struct OomFault { long n, count; int idx; };
static std::vector<OomFault> *g_oom;
static std::vector<OomFault> *g_linemem;
static long g_getlines = 0;
static int g_fill = -1;

static bool alloc_fails(size_t size)
{
    if (!g_active) return false;
    S->allocs++;
    S->steps++;
    mix(size);
    for (auto &f : *g_oom)
    {
        if ((long)S->allocs >= f.n && (f.count < 0 || (long)S->allocs < f.n + f.count))
        {
            S->fired[f.idx]++;
            ev(EV_OOM, (int32_t)S->allocs, (int64_t)size);
            errno = ENOMEM;
            return true;
        }
    }
    return false;
}

extern "C" void *sim_malloc(size_t n)
{
    if (n != 0 && alloc_fails(n)) return NULL;
    if (n > (1ull << 31)) { errno = ENOMEM; return NULL; }
    void *p = malloc(n);
    if (p && g_fill >= 0) memset(p, g_fill, n);
    track(p, n, 0);
    return p;
}
extern "C" void *sim_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || n > (1ull << 31)) { errno = ENOMEM; return NULL; }
    if (n != 0 && alloc_fails(n)) return NULL;
    void *p = calloc(a, b);
    track(p, n, 0);
    return p;
}
extern "C" void sim_free(void *p)
{
    if (p == NULL) return;
    if (g_active) { S->steps++; mix(0xF5EE); }
    size_t n = 0;
    if (untrack(p, &n)) { if (g_fill >= 0) memset(p, 0xDD, n); }
    else { S->bad_free++; }
    free(p); // Bad frees end the process in the real allocator
}
extern "C" void *sim_realloc(void *p, size_t n)
{
    if (p == NULL) return sim_malloc(n);
    if (n != 0 && alloc_fails(n)) return NULL;
    if (n > (1ull << 31)) { errno = ENOMEM; return NULL; }
    size_t old = 0;
    uint32_t i = tab_slot(p);
    uint32_t kind = g_tab[i].p ? g_tab[i].kind : 0;
    if (!untrack(p, &old)) S->bad_free++;
    if (n == 0) { free(p); return NULL; }
    // Nothing to do: large blocks stay where they are (everything that grows would otherwise take the square of its length)
    if (n == old && n > 65536) { track(p, n, kind); return p; }
    // Always move, as a real allocator may
    void *q = malloc(n);
    if (q == NULL) return NULL;
    if (g_fill >= 0) memset(q, g_fill, n);
    memcpy(q, p, old < n ? old : n);
    if (g_fill >= 0) memset(p, 0xDD, old);
    free(p);
    track(q, n, kind);
    return q;
}
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return sim_realloc(p, n);
}
extern "C" char *sim_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char*)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
extern "C" char *sim_strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = (char*)sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
extern "C" int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
    va_list cp;
    va_copy(cp, ap);
    int n = vsnprintf(NULL, 0, fmt, cp);
    va_end(cp);
    if (n < 0) return n;
    *out = (char*)sim_malloc(n + 1);
    if (*out == NULL) return -1;
    return vsnprintf(*out, n + 1, fmt, ap);
}
extern "C" int sim_asprintf(char **out, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = sim_vasprintf(out, fmt, ap);
    va_end(ap);
    return r;
}

// ---------------------------------------------------------------- clock and chance
static int64_t g_clock_base = 1700000000;
static uint64_t g_rand_mode = 3;
static uint64_t g_rand_state = 1;

// Virtual time passes with every interaction with the outside world, most of it while waiting for input
static void tick(bool waiting)
{
    S->clock_ms += waiting ? next_rng() % 5000 : next_rng() % 3;
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        const Fault &f = SC->faults[i];
        // clock jump at step a by b seconds
        if (f.kind == "jump" && S->fired[i] == 0 && (long)S->nev >= f.a) { S->fired[i]++; g_clock_base += f.b; }
    }
}
// Looking at the clock may take long: other processes run meanwhile, or the machine sleeps
static void pass_time() { S->clock_ms += (uint64_t)SC->knob("pace"); }
extern "C" time_t sim_time(time_t *out)
{
    tick(false);
    pass_time();
    int64_t v = g_clock_base + (int64_t)(S->clock_ms / 1000);
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        if (SC->faults[i].kind == "notime") { S->fired[i]++; v = -1; }
    }
    ev(EV_TIME, (int32_t)v);
    if (out) *out = v;
    return v;
}
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(NULL); tv->tv_usec = (S->clock_ms % 1000) * 1000; return 0; }
extern "C" int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = sim_time(NULL); ts->tv_nsec = (S->clock_ms % 1000) * 1000000; return 0; }
extern "C" clock_t sim_clock(void) { tick(false); pass_time(); return S->clock_ms * 1000; }
extern "C" void sim_srand(unsigned s) { if (!SC->knob("noseed")) g_rand_state = g_rand_state * 31 + s; }
extern "C" int sim_rand(void)
{
    int v;
    switch (g_rand_mode)
    {
        case 0: v = 0; break;
        case 1: v = RAND_MAX; break;
        case 2: g_rand_state++; v = (g_rand_state & 1) ? RAND_MAX : 0; break;
        default:
        {
            g_rand_state += 0x9E3779B97F4A7C15ull;
            uint64_t z = g_rand_state;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            z ^= z >> 31;
            if (g_rand_mode == 4 && (z & 1)) v = RAND_MAX - (int)((z >> 40) % 40); // extremes favoured
            else v = (int)(z & RAND_MAX);
        }
    }
    ev(EV_RAND, v);
    return v;
}
extern "C" void sim_srandom(unsigned s) { sim_srand(s); }
extern "C" long sim_random(void) { return sim_rand(); }
extern "C" int sim_rand_r(unsigned *) { return sim_rand(); }
extern "C" double sim_drand48(void) { return sim_rand() / 2147483648.0; }

// ---------------------------------------------------------------- files
struct Inode { std::string data; };
typedef std::shared_ptr<Inode> InodeP;
struct Stream
{
    int handle;
    std::string key;
    int nth;         // how many times the path has been opened before, counted from 1
    InodeP ino;
    size_t pos;
    size_t chunk_i;
    bool eio_done;
    FILE *fp;
    bool bol = true;    // Consumer is at the beginning of a line
    bool asked = false; // Consumer is within a line it asked for
    long consumed = 0;  // Characters of the line consumed so far
};
static std::unordered_map<std::string, InodeP> *g_fs;
static std::unordered_map<std::string, int> *g_opens;
static std::unordered_map<FILE*, Stream*> *g_streams;
static std::unordered_map<int, Stream*> *g_fds; // Descriptors of files opened in the simulation count from 1000
static int g_next_handle = 1;
static long g_io = 0; // I/O events so far, edits are triggered by it
static Stream *g_stdin;

static void io_event()
{
    g_io++;
    tick(false);
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        const Fault &f = SC->faults[i];
        if (S->fired[i] || g_io < f.a) continue;
        if (f.kind == "replace") (*g_fs)[f.target] = std::make_shared<Inode>(Inode{ f.data }); // rename over
        else if (f.kind == "overwrite") { if (g_fs->count(f.target)) (*g_fs)[f.target]->data = f.data; else continue; }
        else if (f.kind == "append") { if (g_fs->count(f.target)) (*g_fs)[f.target]->data += f.data; else continue; }
        else if (f.kind == "truncate") { if (g_fs->count(f.target)) { std::string &d = (*g_fs)[f.target]->data; d.resize(std::min(d.size(), (size_t)f.b)); } else continue; }
        else if (f.kind == "delete") g_fs->erase(f.target);
        else continue;
        S->fired[i]++;
        ev(EV_EDIT, (int32_t)i, g_io);
    }
}

static int err_of(const std::string &s)
{
    if (s == "EIO") return EIO;
    if (s == "EISDIR") return EISDIR;
    if (s == "ENOENT") return ENOENT;
    if (s == "EACCES") return EACCES;
    if (s == "EMFILE") return EMFILE;
    if (s == "ENFILE") return ENFILE;
    if (s == "ENOMEM") return ENOMEM;
    if (s == "ELOOP") return ELOOP;
    if (s == "ENOSPC") return ENOSPC;
    if (s == "EPIPE") return EPIPE;
    if (s == "EAGAIN") return EAGAIN;
    if (s == "ESTALE") return ESTALE;
    return EIO;
}

static void snap() { ev(EV_SNAP, (int32_t)S->live, S->open_streams, S->live_bytes); }
static ssize_t stream_read(void *cookie, char *buf, size_t size)
{
    Stream *st = (Stream*)cookie;
    io_event();
    if (st == g_stdin) tick(true);
    const std::string &d = st->ino->data;
    // Reading by other means than those below: a line is asked for when it is read
    if (st == g_stdin && !st->asked && (st->pos == 0 || st->pos >= d.size() || d[st->pos - 1] == '\n')) snap();
    size_t avail = st->pos < d.size() ? d.size() - st->pos : 0;
    size_t n = std::min(size, avail);
    // Splitting of reads
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        const Fault &f = SC->faults[i];
        if (f.kind != "chunk" || (f.target != st->key && f.target != "*")) continue;
        if (f.a == 0) // one line per read
        {
            size_t nl = d.find('\n', st->pos);
            if (nl != std::string::npos && nl - st->pos + 1 < n) { n = nl - st->pos + 1; S->fired[i]++; }
        }
        else if (f.a > 0) { if ((size_t)f.a < n) { n = f.a; S->fired[i]++; } }
        else // seeded sizes 1..-a
        {
            uint64_t z = (uint64_t)f.b * 0x9E3779B97F4A7C15ull + st->chunk_i * 0xBF58476D1CE4E5B9ull;
            z ^= z >> 31; z *= 0x94D049BB133111EBull; z ^= z >> 29;
            size_t m = 1 + z % (uint64_t)(-f.a);
            if ((z >> 40) % 5 == 0) m = 1;
            if (m < n) { n = m; S->fired[i]++; }
        }
        break;
    }
    st->chunk_i++;
    // Read errors
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        const Fault &f = SC->faults[i];
        if (f.kind != "eio" || f.target != st->key || (f.b != 0 && f.b != st->nth)) continue;
        bool once = !f.data.empty() && f.data[0] == '1'; // transient
        if (once && st->eio_done) continue;
        if (st->pos >= (size_t)f.a && (st->pos == (size_t)f.a || !once))
        {
            S->fired[i]++;
            st->eio_done = true;
            int e = err_of(once ? f.data.substr(1) : f.data);
            ev(EV_READ, st->handle, -e);
            errno = e;
            return -1;
        }
        if (st->pos + n > (size_t)f.a) n = f.a - st->pos;
    }
    if (S->nblob + n > BLOB_CAP) { S->overflow = 1; _exit(97); }
    uint64_t off = S->nblob;
    if (n) memcpy(S->blob + off, d.data() + st->pos, n);
    S->nblob += n;
    memcpy(buf, d.data() + st->pos, n);
    st->pos += n;
    ev(EV_READ, st->handle, (int64_t)n, off);
    mixs(S->blob + off, n);
    return (ssize_t)n;
}

static int stream_close(void *) { return 0; }

static FILE *new_stream(Stream *st)
{
    cookie_io_functions_t io = {};
    io.read = stream_read;
    io.close = stream_close;
    FILE *fp = fopencookie(st, "r", io);
    st->fp = fp;
    (*g_streams)[fp] = st;
    return fp;
}

extern "C" FILE *sim_fopen(const char *path, const char *mode)
{
    io_event();
    uint64_t soff = put_str(path);
    mixs(path, strlen(path));
    int e = 0;
    int nth = ++(*g_opens)[path];
    if (mode[0] != 'r' || strchr(mode, '+')) { foreign("fopen for writing"); e = EROFS; }
    for (size_t i = 0; i < SC->faults.size() && !e; i++)
    {
        const Fault &f = SC->faults[i];
        if (f.kind == "fopen" && f.target == path && (f.a == 0 || f.a == nth)) { e = err_of(f.data); S->fired[i]++; }
        if (f.kind == "fdlimit" && S->open_streams >= f.a) { e = EMFILE; S->fired[i]++; }
    }
    if (!e && S->open_streams >= MAX_OPEN_STREAMS) e = EMFILE;
    auto it = g_fs->find(path);
    if (!e && it == g_fs->end()) e = ENOENT;
    if (e)
    {
        ev(EV_OPEN, -e, 0, soff);
        errno = e;
        return NULL;
    }
    Stream *st = new Stream{ g_next_handle++, path, nth, it->second, 0, 0, false, NULL, true, false, 0 };
    FILE *fp = new_stream(st);
    S->open_streams++;
    if (S->open_streams > S->max_open) S->max_open = S->open_streams;
    ev(EV_OPEN, st->handle, 0, soff);
    return fp;
}
extern "C" int sim_fclose(FILE *fp)
{
    auto it = g_streams->find(fp);
    if (it != g_streams->end())
    {
        ev(EV_CLOSE, it->second->handle);
        if (it->second != g_stdin) S->open_streams--;
        g_fds->erase(1000 + it->second->handle);
        g_streams->erase(it);
    }
    return fclose(fp);
}

// Every way of consuming a line: beginning and end
static Stream *stream_of(FILE *fp)
{
    auto it = g_streams->find(fp);
    return it == g_streams->end() ? NULL : it->second;
}
static void line_begins(Stream *st)
{
    if (st == NULL) return;
    if (st == g_stdin && st->bol && !st->asked) snap();
    st->asked = true;
}
static void line_goes_on(Stream *st, bool ended, long n, bool nothing)
{
    if (st == NULL) return;
    st->consumed += n;
    st->bol = ended;
    if (!ended) return;
    ev(EV_GETLINE, st->handle, nothing && st->consumed == 0 ? -1 : st->consumed);
    st->asked = false;
    st->consumed = 0;
}
extern "C" ssize_t sim_getdelim(char **line, size_t *n, int delim, FILE *fp)
{
    Stream *st = stream_of(fp);
    line_begins(st);
    g_getlines++;
    for (auto &f : *g_linemem)
    {
        if (!feof(fp) && g_getlines >= f.n && (f.count < 0 || g_getlines < f.n + f.count)) // at the end of a stream there is no line to make room for
        {
            S->fired[f.idx]++;
            ev(EV_OOM, (int32_t)g_getlines, -1);
            if (st) st->asked = false;
            errno = ENOMEM;
            return -1;
        }
    }
    // Let glibc grow a buffer of its own, then hand out a tracked one
    char *old = *line;
    size_t oldn = 0;
    if (old != NULL) { if (!untrack(old, &oldn)) S->bad_free++; }
    else *n = 0; // Like glibc: *n is ignored when *line is NULL
    ssize_t r = getdelim(line, n, delim, fp);
    if (*line) track(*line, *n, 1);
    int e = errno;
    line_goes_on(st, true, r > 0 ? (long)r : 0, r < 0);
    errno = e;
    return r;
}
extern "C" int sim_fgetc(FILE *fp)
{
    Stream *st = stream_of(fp);
    line_begins(st);
    int c = fgetc(fp);
    int e = errno;
    line_goes_on(st, c == EOF || c == '\n', c != EOF, c == EOF);
    errno = e;
    return c;
}
extern "C" int sim_getc(FILE *fp) { return sim_fgetc(fp); }
extern "C" int sim_getc_unlocked(FILE *fp) { return sim_fgetc(fp); }
extern "C" int sim_fgetc_unlocked(FILE *fp) { return sim_fgetc(fp); }
extern "C" int sim_getchar(void) { return sim_fgetc(stdin); }
extern "C" int sim_getchar_unlocked(void) { return sim_fgetc(stdin); }
extern "C" char *sim_fgets(char *buf, int n, FILE *fp)
{
    Stream *st = stream_of(fp);
    line_begins(st);
    size_t pos = 0;
    int c = 0;
    while (pos + 1 < (size_t)n && (c = fgetc(fp)) != EOF) { buf[pos++] = (char)c; if (c == '\n') break; }
    int e = errno;
    bool none = pos == 0 || (c == EOF && ferror(fp));
    if (!none) buf[pos] = 0;
    line_goes_on(st, c == EOF || c == '\n', (long)pos, none);
    errno = e;
    return none ? NULL : buf;
}
extern "C" char *sim_fgets_unlocked(char *buf, int n, FILE *fp) { return sim_fgets(buf, n, fp); }
extern "C" int sim_ungetc(int c, FILE *fp)
{
    int r = ungetc(c, fp);
    Stream *st = stream_of(fp);
    if (st != NULL && r != EOF) { st->asked = true; if (st->consumed > 0) st->consumed--; }
    return r;
}
extern "C" ssize_t sim_getdelim_alias(char **line, size_t *n, int delim, FILE *fp) { return sim_getdelim(line, n, delim, fp); }
extern "C" ssize_t sim_getline(char **line, size_t *n, FILE *fp) { return sim_getdelim(line, n, '\n', fp); }

// ---------------------------------------------------------------- output
struct Out { int fd; size_t pos; size_t wr; };
static Out g_out1 = { 1, 0, 0 }, g_out2 = { 2, 0, 0 };
// One write(2): takes some of the bytes or fails
static ssize_t write_once(Out *o, const char *buf, size_t size)
{
    const char *key = o->fd == 1 ? "stdout" : "stderr";
    tick(false);
    size_t n = size;
    o->wr++;
    for (size_t i = 0; i < SC->faults.size(); i++)
    {
        const Fault &f = SC->faults[i];
        if (f.target != key) continue;
        if (f.kind == "outshort" && n > 1)
        {
            uint64_t z = (uint64_t)f.b * 0x9E3779B97F4A7C15ull + o->wr * 0xBF58476D1CE4E5B9ull;
            z ^= z >> 31; z *= 0x94D049BB133111EBull; z ^= z >> 29;
            size_t m = 1 + z % (uint64_t)f.a;
            if (m < n) { n = m; S->fired[i]++; }
        }
        if (f.kind == "outerr")
        {
            if (o->pos >= (size_t)f.a && (f.b < 0 || (long)S->fired[i] < f.b))
            {
                S->fired[i]++;
                int e = err_of(f.data);
                ev(EV_WRITE, o->fd, -e);
                errno = e;
                return -1;
            }
            if (o->pos < (size_t)f.a && o->pos + n > (size_t)f.a) n = f.a - o->pos;
        }
    }
    uint64_t off;
    if (o->fd == 1)
    {
        if (S->nout + n > OUT_CAP) { S->overflow = 1; _exit(97); }
        off = S->nout; memcpy(S->out + off, buf, n); S->nout += n;
    }
    else
    {
        if (S->nerr + n > ERR_CAP) { S->overflow = 1; _exit(97); }
        off = S->nerr; memcpy(S->err + off, buf, n); S->nerr += n;
    }
    o->pos += n;
    ev(EV_WRITE, o->fd, (int64_t)n, off);
    mixs(buf, n);
    return (ssize_t)n;
}
// What the C library makes of it: repeats short writes until everything is written or an error occurs
static ssize_t out_write(void *cookie, const char *buf, size_t size)
{
    size_t done = 0;
    while (done < size)
    {
        ssize_t n = write_once((Out*)cookie, buf + done, size - done);
        if (n < 0) break;
        done += (size_t)n;
    }
    return (ssize_t)done;
}

// ---------------------------------------------------------------- the same streams by file descriptor
static Stream *fd_stream(int fd)
{
    if (fd == 0) return g_stdin;
    auto it = g_fds->find(fd);
    return it == g_fds->end() ? NULL : it->second;
}
extern "C" ssize_t sim_write(int fd, const void *buf, size_t n)
{
    if (fd == 1 || fd == 2) return n == 0 ? 0 : write_once(fd == 1 ? &g_out1 : &g_out2, (const char*)buf, n);
    errno = EBADF;
    return -1;
}
extern "C" ssize_t sim_read(int fd, void *buf, size_t n)
{
    Stream *st = fd_stream(fd);
    if (st == NULL) { errno = EBADF; return -1; }
    return stream_read(st, (char*)buf, n);
}
extern "C" int sim_fileno(FILE *fp)
{
    if (fp == stdin) return 0;
    if (fp == stdout) return 1;
    if (fp == stderr) return 2;
    for (auto &f : *g_fds) if (f.second->fp == fp) return f.first;
    auto it = g_streams->find(fp);
    if (it != g_streams->end()) { int fd = 1000 + it->second->handle; (*g_fds)[fd] = it->second; return fd; }
    errno = EBADF;
    return -1;
}
extern "C" int sim_vdprintf(int fd, const char *fmt, va_list ap)
{
    char *p = NULL;
    int n = vasprintf(&p, fmt, ap);
    for (int i = 0; i < n;)
    {
        ssize_t k = sim_write(fd, p + i, (size_t)(n - i));
        if (k < 0) { free(p); return -1; }
        i += (int)k;
    }
    free(p);
    return n;
}
extern "C" int sim_dprintf(int fd, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = sim_vdprintf(fd, fmt, ap);
    va_end(ap);
    return n;
}
extern "C" int sim_open(const char *path, int flags, ...)
{
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) { foreign("open for writing"); errno = EROFS; return -1; }
    FILE *fp = sim_fopen(path, "r");
    if (fp == NULL) return -1;
    return sim_fileno(fp);
}
extern "C" FILE *sim_fdopen(int fd, const char *)
{
    Stream *st = fd_stream(fd);
    if (st == NULL) { errno = EBADF; return NULL; }
    return st->fp;
}
extern "C" int sim_close(int fd)
{
    Stream *st = fd_stream(fd);
    if (st == NULL || st == g_stdin) { if (fd >= 0 && fd <= 2) return 0; errno = EBADF; return -1; }
    g_fds->erase(fd);
    return sim_fclose(st->fp);
}
extern "C" int sim_isatty(int fd);
extern "C" int sim_access(const char *path, int)
{
    io_event();
    bool found = g_fs->count(path) != 0;
    ev(EV_PROBE, found ? 0 : -ENOENT, 0, put_str(path));
    if (found) return 0;
    errno = ENOENT;
    return -1;
}
static void fill_stat(struct stat *st, mode_t mode, size_t n) { memset(st, 0, sizeof(*st)); st->st_mode = mode; st->st_size = (off_t)n; st->st_nlink = 1; st->st_blksize = 4096; }
extern "C" int sim_stat(const char *path, struct stat *st)
{
    io_event();
    auto it = g_fs->find(path);
    ev(EV_PROBE, it == g_fs->end() ? -ENOENT : 0, 0, put_str(path));
    if (it == g_fs->end()) { errno = ENOENT; return -1; }
    fill_stat(st, S_IFREG | 0644, it->second->data.size());
    return 0;
}
extern "C" int sim_fstat(int fd, struct stat *st)
{
    io_event();
    if (fd == 0 || fd == 1 || fd == 2) { fill_stat(st, (sim_isatty(fd) ? S_IFCHR : S_IFIFO) | 0600, 0); return 0; }
    Stream *s = fd_stream(fd);
    if (s == NULL) { errno = EBADF; return -1; }
    fill_stat(st, S_IFREG | 0644, s->ino->data.size());
    return 0;
}
extern "C" int sim_open64(const char *, int, ...) __attribute__((alias("sim_open")));
extern "C" int sim_stat64(const char *, struct stat *) __attribute__((alias("sim_stat")));
extern "C" int sim_fstat64(int, struct stat *) __attribute__((alias("sim_fstat")));
extern "C" int sim_poll(struct pollfd *p, nfds_t n, int) { tick(true); for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT); return (int)n; }
extern "C" int sim_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) { tick(true); return 1; }
extern "C" unsigned sim_sleep(unsigned s) { S->clock_ms += s * 1000ull; S->slept_ms += s * 1000ull; tick(false); return 0; }
extern "C" int sim_usleep(useconds_t us) { S->clock_ms += us / 1000; S->slept_ms += us / 1000; tick(false); return 0; }
extern "C" int sim_nanosleep(const struct timespec *ts, struct timespec *) { uint64_t ms = (uint64_t)ts->tv_sec * 1000 + (uint64_t)ts->tv_nsec / 1000000; S->clock_ms += ms; S->slept_ms += ms; tick(false); return 0; }
// Surroundings of the process that are no input: an empty environment, or any value for any name
static uint64_t env_hash(const char *name)
{
    uint64_t h = (uint64_t)SC->knob("env") * 0x9E3779B97F4A7C15ull;
    for (; *name; name++) h = (h ^ (unsigned char)*name) * 0x100000001B3ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
}
extern "C" char *sim_getenv(const char *name)
{
    static const char *values[] = { "1", "0", "", "/sim/home", "rules/good0", "dumb", "C", "de_DE.UTF-8", "80", "yes", "-", "/sim/etc/simplification.ruleset", "-q", "xterm-256color", "60", "100", "120", "132", "150", "200", "40", "24", "-1", "1000", "999999", "/dev/null", "C.UTF-8", "/sim/home/.ccalcrc", "ccalc" };
    if (SC->knob("env") == 0) return NULL;
    static int used;
    if (!used++) ev(EV_ENV, 0, 0, put_str(name));
    uint64_t h = env_hash(name);
    if (h % 5 == 0) return NULL;
    return (char*)values[(h >> 8) % (sizeof(values) / sizeof(*values))];
}
extern "C" char *sim_secure_getenv(const char *name) { return sim_getenv(name); }
extern "C" pid_t sim_getpid(void) { return 4242 + (pid_t)(SC->knob("env") ? env_hash("pid") % 20000 : 0); }
extern "C" pid_t sim_getppid(void) { return 4000 + (pid_t)(SC->knob("env") ? env_hash("ppid") % 20000 : 0); }
extern "C" uid_t sim_getuid(void) { return 1000 + (uid_t)(SC->knob("env") ? env_hash("uid") % 3 : 0); }
extern "C" char *sim_getcwd(char *buf, size_t n)
{
    const char *d = SC->knob("env") ? "/sim/elsewhere" : "/sim/here";
    if (buf == NULL) return sim_strdup(d);
    if (n <= strlen(d)) { errno = ERANGE; return NULL; }
    return strcpy(buf, d);
}
extern "C" char *sim_realpath(const char *path, char *buf)
{
    if (sim_access(path, 0) != 0) return NULL;
    if (buf == NULL) return sim_strdup(path);
    if (strlen(path) >= PATH_MAX) { errno = ENAMETOOLONG; return NULL; }
    return strcpy(buf, path);
}

// ---------------------------------------------------------------- terminal
extern "C" int sim_isatty(int fd)
{
    if (fd == 0) return SC->tty;
    // Output goes to the terminal as well, or elsewhere
    long o = SC->knob("outtty", -1);
    if (fd == 1 || fd == 2) return o < 0 ? SC->tty : (o >> (fd - 1)) & 1;
    return 0;
}
static std::string g_last_line;
static bool g_typed;
static std::vector<char*> g_remembered;
extern "C" char *sim_readline(const char *prompt)
{
    if (prompt && *prompt) { fputs(prompt, stdout); }
    fflush(stdout);
    snap();
    tick(true);
    const std::string &d = g_stdin->ino->data;
    if (g_stdin->pos >= d.size()) { ev(EV_READ, 0, 0, S->nblob); ev(EV_GETLINE, 0, -1); return NULL; }
    size_t nl = d.find('\n', g_stdin->pos);
    size_t end = nl == std::string::npos ? d.size() : nl;
    std::string l = d.substr(g_stdin->pos, end - g_stdin->pos);
    g_stdin->pos = nl == std::string::npos ? end : nl + 1;
    size_t z = l.find('\0');
    if (z != std::string::npos) l.resize(z);
    ev(EV_READ, 0, (int64_t)l.size() + 1, S->nblob);
    if (S->nblob + l.size() + 1 > BLOB_CAP) { S->overflow = 1; _exit(97); }
    memcpy(S->blob + S->nblob, l.data(), l.size());
    S->blob[S->nblob + l.size()] = '\n';
    S->nblob += l.size() + 1;
    mixs(l.data(), l.size());
    char *p = (char*)malloc(l.size() + 1);
    memcpy(p, l.c_str(), l.size() + 1);
    track(p, l.size() + 1, 1);
    g_last_line = l;
    g_typed = true;
    ev(EV_GETLINE, 0, (int64_t)l.size());
    return p;
}
// Lines that were typed belong to whoever sits there; any other line that is remembered takes memory as everything else does
extern "C" void sim_add_history(const char *s)
{
    mixs(s, strlen(s));
    if (g_typed && g_last_line == s) { g_typed = false; return; }
    size_t n = strlen(s) + 1;
    char *p = (char*)malloc(n);
    memcpy(p, s, n);
    track(p, n, 1);
    g_remembered.push_back(p);
}
extern "C" void sim_rl_clear_history(void)
{
    for (char *p : g_remembered) { untrack(p, NULL); free(p); }
    g_remembered.clear();
}
extern "C" int sim_rl_bind_key(int, void *) { return 0; }
extern "C" int sim_rl_insert(int, int) { return 0; }

// ---------------------------------------------------------------- things a calculator has no business with
extern "C" int sim_system(const char *) { foreign("system"); return -1; }
extern "C" FILE *sim_popen(const char *, const char *) { foreign("popen"); return NULL; }
extern "C" int sim_remove(const char *) { foreign("remove"); errno = EROFS; return -1; }
extern "C" int sim_unlink(const char *) { foreign("unlink"); errno = EROFS; return -1; }
extern "C" int sim_rename(const char *, const char *) { foreign("rename"); errno = EROFS; return -1; }
extern "C" FILE *sim_freopen(const char *, const char *, FILE *) { foreign("freopen"); errno = EROFS; return NULL; }
extern "C" FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
extern "C" int sim_openat(int dir, const char *path, int flags, ...)
{
    if (dir != AT_FDCWD && path[0] != '/') { foreign("openat"); errno = EBADF; return -1; }
    return sim_open(path, flags);
}
// History and settings of readline would be files, too
extern "C" int sim_read_history(const char *) { foreign("read_history"); return ENOENT; }
extern "C" int sim_write_history(const char *) { foreign("write_history"); return EROFS; }
extern "C" int sim_append_history(int, const char *) { foreign("append_history"); return EROFS; }
extern "C" int sim_rl_read_init_file(const char *) { foreign("rl_read_init_file"); return ENOENT; }

// Whatever else reaches the system is stopped by the kernel, recorded, and fails
#define LET_PASS 0x51D0C0DEu
static void on_sigsys(int, siginfo_t *si, void *uc)
{
    int saved = errno;
    greg_t *g = ((ucontext_t*)uc)->uc_mcontext.gregs;
    long nr = si->si_syscall;
    const char *path = nr == SYS_openat ? (const char*)g[REG_RSI] : nr == SYS_open ? (const char*)g[REG_RDI] : NULL;
    if (path != NULL)
    {
        // Files of the run-time environment, they come with whatever library is used
        static const char *own[] = { "/proc/self/", "/usr/lib", "/lib", "/usr/share/locale", "/usr/share/zoneinfo", "/etc/localtime", "/etc/ld.so" };
        int flags = (int)(nr == SYS_openat ? g[REG_RDX] : g[REG_RSI]);
        for (const char *o : own)
        {
            if ((flags & (O_ACCMODE | O_CREAT | O_TRUNC)) != O_RDONLY || strncmp(path, o, strlen(o)) != 0) continue;
            long r = syscall(SYS_openat, AT_FDCWD, path, flags, 0, 0, LET_PASS);
            g[REG_RAX] = r < 0 ? -errno : r;
            errno = saved;
            return;
        }
    }
    char text[64];
    snprintf(text, sizeof(text), "system call %ld", nr);
    foreign(text);
    g[REG_RAX] = -EPERM;
    errno = saved;
}
static void confine()
{
    static const int denied[] = { SYS_open, SYS_openat, SYS_openat2, SYS_creat, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_mknod, SYS_mknodat,
        SYS_rename, SYS_renameat, SYS_renameat2, SYS_chmod, SYS_fchmodat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_truncate, SYS_utime, SYS_utimes, SYS_utimensat, SYS_futimesat, SYS_setxattr, SYS_lsetxattr, SYS_removexattr,
        SYS_fork, SYS_vfork, SYS_clone, SYS_clone3, SYS_execve, SYS_execveat, SYS_socket, SYS_socketpair, SYS_connect, SYS_bind, SYS_kill, SYS_tkill, SYS_ptrace, SYS_process_vm_writev, SYS_mount, SYS_umount2, SYS_chroot, SYS_pivot_root,
        SYS_chdir, SYS_fchdir, SYS_setuid, SYS_setgid, SYS_setresuid, SYS_setresgid, SYS_reboot, SYS_sethostname, SYS_settimeofday, SYS_clock_settime, SYS_adjtimex, SYS_swapon, SYS_swapoff, SYS_memfd_create, SYS_mq_open, SYS_shmget, SYS_msgget, SYS_semget,
        SYS_bpf, SYS_unshare, SYS_setns, SYS_init_module, SYS_finit_module, SYS_kexec_load, SYS_quotactl, SYS_acct, SYS_inotify_init, SYS_inotify_init1 };
    const size_t n = sizeof(denied) / sizeof(*denied);
    struct sock_filter f[n + 16];
    unsigned short k = 0;
    auto put = [&](unsigned short code, unsigned char jt, unsigned char jf, unsigned v) { f[k++] = sock_filter{ code, jt, jf, v }; };
    put(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(struct seccomp_data, arch));
    put(BPF_JMP | BPF_JEQ | BPF_K, 1, 0, AUDIT_ARCH_X86_64);
    put(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
    put(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(struct seccomp_data, args[5]));
    put(BPF_JMP | BPF_JEQ | BPF_K, 0, 1, LET_PASS);
    put(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
    put(BPF_LD | BPF_W | BPF_ABS, 0, 0, offsetof(struct seccomp_data, nr));
    for (size_t i = 0; i < n; i++) put(BPF_JMP | BPF_JEQ | BPF_K, (unsigned char)(n - i), 0, (unsigned)denied[i]);
    put(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW);
    put(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_TRAP);
    struct sock_fprog prog = { k, f };
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) == 0) S->confined = 1;
}

// ---------------------------------------------------------------- life cycle
extern "C" void sim_exit(int code)
{
    exit(code);
}
// Leaves without exit handlers and without writing out what is buffered
extern "C" void sim__exit(int code)
{
    g_active = false;
    ev(EV_EXIT, code);
    S->exit_code = code;
    S->ended = 1;
    _exit(code & 0xFF);
}
extern "C" void sim__Exit(int code) { sim__exit(code); }
extern "C" void sim_quick_exit(int code) { sim__exit(code); }

// Blocks of memory that hold a line of input (lines in execution when the session is quit)
static void find_lines()
{
    S->live_lines = 0;
    if (S->live == 0 || S->live > 4096) return;
    std::unordered_set<std::string> lines;
    auto add = [&](const std::string &d)
    {
        size_t i = 0;
        while (i < d.size())
        {
            size_t nl = d.find('\n', i);
            if (nl == std::string::npos) nl = d.size();
            lines.insert(std::string(d.c_str() + i, strnlen(d.c_str() + i, nl - i)));
            i = nl + 1;
        }
    };
    add(SC->in);
    for (auto &f : *g_fs) add(f.second->data);
    for (auto &f : SC->files) add(f.second);
    for (auto &f : SC->faults) if (f.kind == "replace" || f.kind == "overwrite" || f.kind == "append") add(f.data);
    for (auto &a : SC->args) add(a);
    for (size_t i = 0; i < TAB; i++)
    {
        if (g_tab[i].p == NULL) continue;
        if (g_tab[i].kind == 1) { S->live_lines++; continue; }
        std::string t((const char*)g_tab[i].p, strnlen((const char*)g_tab[i].p, g_tab[i].n));
        if (!t.empty() && t.back() == '\n') t.pop_back();
        if (!t.empty() && lines.count(t)) S->live_lines++;
    }
}
static void at_end(int code, void *)
{
    // Last exit handler: ccalc's own handlers have run, streams have not been flushed yet
    fflush(stdout);
    fflush(stderr);
    g_active = false;
    find_lines();
    ev(EV_EXIT, code);
    S->exit_code = code;
    S->ended = 1;
    _exit(code & 0xFF);
}

__attribute__((noinline)) static void smear_stack(int v)
{
    volatile char buf[96 * 1024];
    for (size_t i = 0; i < sizeof(buf); i++) buf[i] = (char)v;
}

void sim_child_main(const Scenario &sc, Shared *sh)
{
    S = sh;
    SC = &sc;
    g_rng = sc.seed ^ 0xC0FFEE;
    g_oom = new std::vector<OomFault>();
    g_linemem = new std::vector<OomFault>();
    g_fs = new std::unordered_map<std::string, InodeP>();
    g_opens = new std::unordered_map<std::string, int>();
    g_streams = new std::unordered_map<FILE*, Stream*>();
    g_fds = new std::unordered_map<int, Stream*>();
    for (auto &f : sc.files) (*g_fs)[f.first] = std::make_shared<Inode>(Inode{ f.second });
    for (size_t i = 0; i < sc.faults.size(); i++)
    {
        const Fault &f = sc.faults[i];
        if (f.kind == "oom") g_oom->push_back({ f.a, f.b, (int)i });
        if (f.kind == "linemem") g_linemem->push_back({ f.a, f.b, (int)i });
        if (f.kind == "rng") { g_rand_mode = f.a; g_rand_state = f.b; S->fired[i]++; }
        if (f.kind == "clock") { g_clock_base = f.a; S->fired[i]++; }
    }
    g_fill = (int)sc.knob("fill", 0xA5);
    g_stdin = new Stream{ 0, "stdin", 1, std::make_shared<Inode>(Inode{ sc.in }), 0, 0, false, NULL, true, false, 0 };
    stdin = new_stream(g_stdin);
    cookie_io_functions_t io = {};
    io.write = out_write;
    FILE *o = fopencookie(&g_out1, "w", io);
    FILE *e = fopencookie(&g_out2, "w", io);
    long ob = sc.knob("outbuf", 1);
    static char obuf[1 << 16];
    if (ob == 0) setvbuf(o, NULL, _IONBF, 0);
    else if (ob == 1) setvbuf(o, obuf, _IOLBF, 4096);
    else setvbuf(o, obuf, _IOFBF, (size_t)ob > sizeof(obuf) ? sizeof(obuf) : (size_t)ob);
    setvbuf(e, NULL, _IONBF, 0);
    stdout = o;
    stderr = e;
    std::vector<char*> argv;
    argv.push_back(strdup("ccalc"));
    for (auto &a : sc.args) argv.push_back(strdup(a.c_str()));
    argv.push_back(NULL);
    on_exit(at_end, NULL);
    smear_stack((int)sc.knob("stack", 0x5A));
    static char *no_env[] = { NULL };
    static char *some_env[] = { (char*)"HOME=/sim/home", (char*)"PATH=/sim/bin", (char*)"LANG=de_DE.UTF-8", (char*)"LC_ALL=de_DE.UTF-8", (char*)"TERM=dumb", (char*)"COLUMNS=20", (char*)"CCALC=1", (char*)"USER=sim", NULL };
    environ = sc.knob("env") ? some_env : no_env;
    confine();
    errno = 0;
    g_active = true;
    exit(ccalc_main((int)argv.size() - 1, argv.data(), environ));
}
