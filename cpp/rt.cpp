// The simulator runtime. Compiled without instrumentation. See rt.h and DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <locale>
#include <sstream>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
double __real_log(double);
size_t __real_strlen(const char *);
extern char __data_start, _end;
}

namespace rt {

// ------------------------------------------------------------------ small helpers
static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t g_hash = 1469598103934665603ull;
void mix(uint64_t v) {
    for (int i = 0; i < 8; ++i) {
        g_hash = (g_hash ^ ((v >> (8 * i)) & 255)) * 1099511628211ull;
    }
}
uint64_t eventHash() {
    return g_hash;
}

// ------------------------------------------------------------------ result text
static char g_out[1 << 22];
static size_t g_outLen = 0;
static int g_resultFd = -1;
static const char *g_phase = "start";
void setResultFd(int fd) {
    g_resultFd = fd;
}
void setPhase(const char *p) {
    g_phase = p;
}
static void append(const char *s, size_t n) {
    if (g_outLen + n > sizeof(g_out)) {
        n = sizeof(g_out) - g_outLen;
    }
    __real_memcpy(g_out + g_outLen, s, n);
    g_outLen += n;
}
static void appendf(const char *fmt, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    append(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
}
void emit(const std::string &s) {
    append(s.data(), s.size());
}

// ------------------------------------------------------------------ threads
typedef uint32_t VC[MAXT];
struct Thr {
    int id = 0;
    int lib = 0, off = 0;    // in library code; temporarily outside it
    bool faultsOn = false;
    bool probing = false;
    int op = -1;
    uint64_t acc = 0, allocs = 0, maths = 0, invalids = 0, undefs = 0, points = 0;
    uint64_t mathN[16] = {0};
    uint64_t fired[F_KINDS] = {0, 0};
    uintptr_t stackBase = 0, stackLow = 0, opSp = 0, minSp = 0;
    enum State { NONE, RUNNABLE, BLOCKED, DONE } state = NONE;
    const void *waitFor = nullptr;
    uint32_t futex = 0;
    VC vc = {0};
    void (*body)(int) = nullptr;
    int64_t countdown = 0;
    bool onMain = false;     // runs on the thread of the process itself
};

static Thr g_thr[MAXT];
static thread_local Thr *tls __attribute__((tls_model("initial-exec"))) = nullptr;
static bool g_multi = false;      // more than one caller thread
static bool g_simRunning = false; // caller threads exist
static int g_nthreads = 0;

static inline bool inLib(Thr *t) {
    return t && t->lib > 0 && t->off == 0;
}
int self() {
    return tls ? tls->id : 4;
}

// ------------------------------------------------------------------ state of the run
static Env g_env;
static SchedSpec g_sched;
static const FaultSpec *g_faults = nullptr;
static int g_nfaults = 0;
static uint64_t g_faultsFired[F_KINDS] = {0, 0};
static bool g_failAll = false;
static uint64_t g_budget = ~0ull;
static uint64_t g_steps = 0;
static uint64_t g_rng = 1, g_heapRng = 1;
static uint64_t g_simNs = 0;
static uint64_t g_wallOff = 0;
static uint64_t g_clockRng = 0;
static uint64_t g_entropy = 0x5eed;
uint64_t totalSteps() {
    return g_steps;
}
uint64_t faultsFired(int k) {
    return g_faultsFired[k];
}

struct TraceRec {
    int from, op;
    uint64_t acc;
    int to;
};
static TraceRec g_trace[20000];
static int g_traceLen = 0;
static uint64_t g_switches = 0;
static int g_tracePos[MAXT]; // position in the explicit trace, per thread
static int g_forcedPos = 0;
uint64_t totalSwitches() {
    return g_switches;
}
uint64_t traceHash() {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < g_traceLen; ++i) {
        const uint64_t v[4] = {(uint64_t)g_trace[i].from, (uint64_t)g_trace[i].op, g_trace[i].acc,
                               (uint64_t)g_trace[i].to};
        for (uint64_t x : v) {
            h = (h ^ x) * 1099511628211ull;
        }
    }
    return h;
}
static char g_traceText[1 << 20];
const char *traceText() {
    size_t n = 0;
    for (int i = 0; i < g_traceLen && n + 80 < sizeof g_traceText; ++i) {
        n += snprintf(g_traceText + n, sizeof g_traceText - n, "%s%d:%d:%lld:%d", i ? "," : "", g_trace[i].from,
                      g_trace[i].op, (long long)g_trace[i].acc, g_trace[i].to);
    }
    g_traceText[n] = 0;
    return g_traceText;
}

// ------------------------------------------------------------------ violations
static int g_nviol = 0;
struct Seen {
    const char *kind;
    const void *pc;
};
static Seen g_seen[64];
void violation(const char *kind, const char *fmt, ...) {
    if (g_nviol >= 40) {
        return;
    }
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    Thr *t = tls;
    ++g_nviol;
    appendf("V %s t=%d op=%d %s\n", kind, t ? t->id : 4, t ? t->op : -1, b);
}
static void violationAt(const char *kind, const void *pc, const char *what, uint64_t a, uint64_t b) {
    for (int i = 0; i < 64 && g_seen[i].kind; ++i) {
        if (g_seen[i].kind == kind && g_seen[i].pc == pc) {
            return;
        }
    }
    for (auto &s : g_seen) {
        if (!s.kind) {
            s = {kind, pc};
            break;
        }
    }
    violation(kind, "%s pc=%p x=%llu y=%llu", what, pc, (unsigned long long)a, (unsigned long long)b);
}

void finish() {
    size_t n = 0;
    while (n < g_outLen) {
        ssize_t w = write(g_resultFd, g_out + n, g_outLen - n);
        if (w <= 0) {
            break;
        }
        n += w;
    }
    _exit(0);
}

static bool g_dying = false;
void (*onFatal)() = nullptr;
void fatal(const char *what) {
    if (g_dying) {
        _exit(3);
    }
    g_dying = true;
    Thr *t = tls;
    appendf("F %s t=%d op=%d phase=%s fired=%llu,%llu steps=%llu\n", what, t ? t->id : 4, t ? t->op : -1, g_phase,
            (unsigned long long)g_faultsFired[0], (unsigned long long)g_faultsFired[1], (unsigned long long)g_steps);
    appendf("T %s\n", traceText());
    if (onFatal) {
        onFatal();
    }
    finish();
}

// ------------------------------------------------------------------ race detection
struct Sync {
    const void *addr;
    VC vc;
    int state; // mutexes: 0 free, 1 held; once and guards: 0 new, 1 running, 2 done; rwlocks: number of readers
    int owner, depth;
};
static Sync g_sync[8192];
static int g_nsync = 0;
static Sync *syncOf(const void *a) {
    uint32_t h = (uint32_t)(((uintptr_t)a >> 2) * 2654435761u) & 8191;
    for (int i = 0; i < 8192; ++i, h = (h + 1) & 8191) {
        if (g_sync[h].addr == a) {
            return &g_sync[h];
        }
        if (!g_sync[h].addr) {
            if (++g_nsync > 8000) {
                fatal("sync-table-full");
            }
            g_sync[h].addr = a;
            g_sync[h].owner = -1;
            return &g_sync[h];
        }
    }
    fatal("sync-table-full");
}
static void joinVC(VC &d, const VC &s) {
    for (int i = 0; i < MAXT; ++i) {
        if (s[i] > d[i]) {
            d[i] = s[i];
        }
    }
}
static void acquireFrom(Thr *t, Sync *s) {
    joinVC(t->vc, s->vc);
}
static void releaseTo(Thr *t, Sync *s) {
    joinVC(s->vc, t->vc);
    ++t->vc[t->id];
}

struct Cell { // one 8-byte granule
    uint32_t w;
    uint32_t r[MAXT];
    uint8_t wt, wm;
    uint8_t rm[MAXT], wat;
    uint16_t rat;
};
static_assert(sizeof(Cell) == 64, "cell");

constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SIZE = 1ull << 30;
constexpr uintptr_t CELLS = 0x200000000000ull;
constexpr uintptr_t SHADOW = 0x300000000000ull;
static Cell *const g_cells = (Cell *)CELLS;
// stacks: only once the library has started threads of its own
constexpr uintptr_t STACKS = 0x400000000000ull, STACK_GAP = 1ull << 30, STACK_CELLS = STACK_GAP * MAXT, MAIN_CELLS = 64ull << 20;
static Cell *const g_stackCells = (Cell *)0x500000000000ull;
static uintptr_t g_mainLow = 0; // of the part of the main thread's stack that is observed
static int g_workers = 0;       // threads started by the library so far
static uint8_t *const g_shadow = (uint8_t *)SHADOW; // one byte per 8 bytes: 0 ok, 1..7 partly, 0xfa redzone, 0xfd freed
static Cell *g_globalCells = nullptr;
static uintptr_t g_globLo, g_globHi;
struct Range {
    uintptr_t lo, hi;
};
static Range g_exempt[32];
static int g_nexempt = 0;
void addExemptRange(const void *p, size_t n) {
    g_exempt[g_nexempt++] = {(uintptr_t)p, (uintptr_t)p + n};
}
static inline bool isArenaA(uintptr_t a) {
    return a - ARENA < ARENA_SIZE;
}
bool isArena(const void *p) {
    return isArenaA((uintptr_t)p);
}
static inline bool exempt(uintptr_t a) {
    for (int i = 0; i < g_nexempt; ++i) {
        if (a - g_exempt[i].lo < g_exempt[i].hi - g_exempt[i].lo) {
            return true;
        }
    }
    return false;
}

// returns true if another thread has used the granule
static bool raceCheck(Thr *t, Cell &c, uint8_t mask, bool write, bool atomic, uintptr_t a, const void *pc) {
    bool shared = false;
    if (c.w && c.wt != t->id) {
        shared = true;
        if ((c.wm & mask) && c.w > t->vc[c.wt] && !(atomic && c.wat)) {
            violationAt("race", pc, write ? "write-write" : "read-after-write", isArenaA(a) ? 1 : 0, c.wt);
        }
    }
    for (int u = 0; u < MAXT; ++u) {
        if (u != t->id && c.r[u]) {
            shared = true;
            if (write && (c.rm[u] & mask) && c.r[u] > t->vc[u] && !(atomic && (c.rat >> u & 1))) {
                violationAt("race", pc, "write-after-read", isArenaA(a) ? 1 : 0, u);
            }
        }
    }
    const int me = t->id;
    if (write) {
        if (c.w == t->vc[me] && c.wt == me && c.wat == atomic) {
            c.wm |= mask;
        } else {
            c.w = t->vc[me];
            c.wt = me;
            c.wm = mask;
            c.wat = atomic;
        }
    } else {
        if (c.r[me] == t->vc[me]) {
            c.rm[me] |= mask;
            if (!atomic) {
                c.rat &= ~(1 << me);
            }
        } else {
            c.r[me] = t->vc[me];
            c.rm[me] = mask;
            c.rat = (c.rat & ~(1 << me)) | (atomic << me);
        }
    }
    return shared;
}

// ------------------------------------------------------------------ scheduler
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*realJoin)(pthread_t, void **);
static int (*realDetach)(pthread_t);
static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void futexWait(uint32_t *a, uint32_t v) {
    rawSyscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void futexWake(uint32_t *a) {
    rawSyscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void passTo(int u) {
    __atomic_store_n(&g_thr[u].futex, 1, __ATOMIC_SEQ_CST);
    futexWake(&g_thr[u].futex);
}
static void waitTurn(Thr *t) {
    while (__atomic_load_n(&t->futex, __ATOMIC_SEQ_CST) == 0) {
        futexWait(&t->futex, 0);
    }
    __atomic_store_n(&t->futex, 0, __ATOMIC_SEQ_CST);
}
static void record(int from, int op, uint64_t acc, int to) {
    ++g_switches;
    mix(((uint64_t)from << 56) ^ ((uint64_t)op << 40) ^ acc);
    mix(to);
    if (g_traceLen < (int)(sizeof g_trace / sizeof *g_trace)) {
        g_trace[g_traceLen++] = {from, op, acc, to};
    }
}
static void newCountdown(Thr *t) {
    if (g_sched.gap == 0) {
        t->countdown = INT64_MAX;
        return;
    }
    double u = (double)((splitmix(g_rng) >> 11) + 1) / 9007199254740993.0;
    // long executions become coarser, so that every run ends: the distance doubles after each 16384 switches
    const uint64_t c = g_switches >> 14;
    double v = -__real_log(u) * (double)g_sched.gap * (double)(1ull << (c < 30 ? c : 30));
    t->countdown = v < 1 ? 1 : (v > 1e15 ? (int64_t)1e15 : (int64_t)v);
}
static int runnableList(int *list, int exceptId) {
    int n = 0;
    for (int i = 0; i < MAXT; ++i) {
        if (i != exceptId && g_thr[i].state == Thr::RUNNABLE) {
            list[n++] = i;
        }
    }
    return n;
}
static void switchTo(Thr *t, int u) {
    ++t->off;
    passTo(u);
    waitTurn(t);
    --t->off;
    newCountdown(t);
}
// a possible switch at this access
static void maybeSwitch(Thr *t, int weight) {
    if (g_sched.explicitTrace) {
        int &p = g_tracePos[t->id];
        while (p < g_sched.traceLen &&
               (g_sched.trace[p].from != t->id || g_sched.trace[p].acc == ~0ull || g_sched.trace[p].op < t->op ||
                (g_sched.trace[p].op == t->op && g_sched.trace[p].acc < t->acc))) {
            ++p;
        }
        if (p < g_sched.traceLen && g_sched.trace[p].op == t->op && g_sched.trace[p].acc == t->acc) {
            int u = g_sched.trace[p].to;
            ++p;
            if (u != t->id && u >= 0 && u < MAXT && g_thr[u].state == Thr::RUNNABLE) {
                record(t->id, t->op, t->acc, u);
                switchTo(t, u);
            }
        }
        return;
    }
    t->countdown -= weight;
    if (t->countdown > 0) {
        return;
    }
    int list[MAXT];
    int n = runnableList(list, t->id);
    if (n == 0) {
        newCountdown(t);
        return;
    }
    int u = list[splitmix(g_rng) % n];
    record(t->id, t->op, t->acc, u);
    switchTo(t, u);
}
// the thread can not go on: choose another one
static int forcedChoice(Thr *t) {
    int list[MAXT];
    int n = runnableList(list, t->id);
    if (n == 0) {
        return -1;
    }
    int u = list[0];
    if (g_sched.explicitTrace) {
        while (g_forcedPos < g_sched.traceLen && g_sched.trace[g_forcedPos].acc != ~0ull) {
            ++g_forcedPos;
        }
        if (g_forcedPos < g_sched.traceLen) {
            int w = g_sched.trace[g_forcedPos++].to;
            for (int i = 0; i < n; ++i) {
                if (list[i] == w) {
                    u = w;
                }
            }
        }
    } else {
        u = list[splitmix(g_rng) % n];
    }
    record(t->id, t->op, ~0ull, u);
    return u;
}
static void blockOn(Thr *t, const void *obj) {
    t->state = Thr::BLOCKED;
    t->waitFor = obj;
    int u = forcedChoice(t);
    if (u < 0) {
        fatal("deadlock");
    }
    switchTo(t, u);
}
static void wakeWaiters(const void *obj, bool one = false) {
    for (int i = 0; i < MAXT; ++i) {
        if (g_thr[i].state == Thr::BLOCKED && g_thr[i].waitFor == obj) {
            g_thr[i].state = Thr::RUNNABLE;
            g_thr[i].waitFor = nullptr;
            if (one) {
                return;
            }
        }
    }
}
static void yieldNow(Thr *t) {
    int list[MAXT];
    int n = runnableList(list, t->id);
    if (n) {
        int u = forcedChoice(t);
        switchTo(t, u);
    }
}

// ------------------------------------------------------------------ watched settings
static const unsigned char *g_watch = nullptr;
static size_t g_watchN = 0;
static unsigned char g_watchCopy[256];
static bool g_watchDirty = false, g_watchOff = false;
static const void *g_watchPc = nullptr;
void rewatch() {
    if (g_watch) {
        __real_memcpy(g_watchCopy, g_watch, g_watchN);
        g_watchDirty = false;
    }
    g_watchOff = false;
}
void watch(const void *p, size_t n) {
    g_watch = (const unsigned char *)p;
    g_watchN = n < sizeof g_watchCopy ? n : sizeof g_watchCopy;
    rewatch();
}
void unwatch() {
    g_watch = nullptr;
}
void expectSettingsWrite(bool on) {
    g_watchOff = on;
}
static void watchCompare() {
    g_watchDirty = false;
    if (g_watchOff) {
        return;
    }
    if (g_watch && __real_memcmp(g_watch, g_watchCopy, g_watchN) != 0) {
        size_t i = 0;
        while (g_watch[i] == g_watchCopy[i]) {
            ++i;
        }
        violationAt("settings-write", g_watchPc, "offset", i, 0);
        __real_memcpy(g_watchCopy, g_watch, g_watchN);
    }
}

// ------------------------------------------------------------------ accesses
static void badAccess(uintptr_t a, size_t n, bool write, const void *pc);

static inline int pointWeight(Thr *t, uintptr_t a, bool shared, bool global, bool atomic) {
    (void)a;
    if (atomic) {
        return g_sched.wAtomic;
    }
    if (global) {
        return g_sched.wGlobal;
    }
    if (shared) {
        return g_sched.wShared;
    }
    return isArenaA(a) ? g_sched.wHeap : g_sched.wStack;
}

static void step(Thr *t) {
    ++t->acc;
    ++g_steps;
    if (t->acc > g_budget) {
        fatal("budget");
    }
}

void limitSteps(uint64_t n) {
    if (tls && tls->acc + n < g_budget) {
        g_budget = tls->acc + n;
    }
}
static inline bool shadowOk(uintptr_t a, size_t n) {
    uintptr_t off = a - ARENA;
    uintptr_t first = off >> 3, last = (off + n - 1) >> 3;
    for (uintptr_t i = first; i < last; ++i) {
        if (g_shadow[i]) {
            return false;
        }
    }
    uint8_t s = g_shadow[last];
    return s == 0 || (s < 8 && ((off + n - 1) & 7) < s);
}

static void accessRange(Thr *t, uintptr_t a, size_t n, bool write, bool atomic, const void *pc) {
    step(t);
    if (g_watchDirty) {
        watchCompare();
    }
    bool shared = false, global = false;
    if (isArenaA(a)) {
        if (!shadowOk(a, n)) {
            badAccess(a, n, write, pc);
        }
        if (g_multi) {
            ++t->off;
            uintptr_t off = a - ARENA, end = off + n;
            while (off < end) {
                unsigned lo = off & 7, hi = end - off >= 8u - lo ? 8 : lo + (unsigned)(end - off);
                uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
                shared |= raceCheck(t, g_cells[off >> 3], mask, write, atomic, a, pc);
                off += hi - lo;
            }
            --t->off;
        }
    } else if (g_workers && (a - STACKS < STACK_CELLS || a - g_mainLow < MAIN_CELLS)) { // a stack another thread may use
        ++t->off;
        uintptr_t off = a - STACKS < STACK_CELLS ? MAIN_CELLS + (a - STACKS) : a - g_mainLow, end = off + n;
        while (off < end) {
            unsigned lo = off & 7, hi = end - off >= 8u - lo ? 8 : lo + (unsigned)(end - off);
            uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
            shared |= raceCheck(t, g_stackCells[off >> 3], mask, write, atomic, a, pc);
            off += hi - lo;
        }
        --t->off;
    } else if (a - g_globLo < g_globHi - g_globLo) {
        if (write && g_watch && a + n > (uintptr_t)g_watch && a < (uintptr_t)g_watch + g_watchN) {
            g_watchDirty = true;
            g_watchPc = pc;
        }
        if (g_multi && !exempt(a)) {
            ++t->off;
            global = write;
            uintptr_t off = a - g_globLo, end = off + n;
            while (off < end) {
                unsigned lo = off & 7, hi = end - off >= 8u - lo ? 8 : lo + (unsigned)(end - off);
                uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
                shared |= raceCheck(t, g_globalCells[off >> 3], mask, write, atomic, a, pc);
                off += hi - lo;
            }
            --t->off;
        }
    }
    if (g_multi) {
        maybeSwitch(t, pointWeight(t, a, shared, global, atomic));
    }
}

static inline void access(const void *p, size_t n, bool write, const void *pc) {
    Thr *t = tls;
    if (!inLib(t)) {
        return;
    }
    accessRange(t, (uintptr_t)p, n, write, false, pc);
}
static void access0(const void *p, size_t n, bool write, const void *pc) {
    if (n) {
        access(p, n, write, pc);
    }
}

// ------------------------------------------------------------------ allocator
struct Head { // 32 bytes before the block, inside the left redzone
    uint64_t size;
    uint32_t magic;
    int32_t thread;
    uint64_t serial;
    uint32_t op;
    uint8_t kind, live, inLibAlloc, pad;
};
static_assert(sizeof(Head) == 32, "head");
constexpr uint32_t MAGIC = 0x51a110c8;
static uintptr_t g_lo = ARENA + 4096, g_hi = ARENA + ARENA_SIZE - 4096;
static uint64_t g_liveBlocks = 0, g_liveBytes = 0, g_serial = 0;
uint64_t liveBlocks() {
    return g_liveBlocks;
}
uint64_t liveBytes() {
    return g_liveBytes;
}
struct FreeNode {
    FreeNode *next;
};
constexpr int CLASSES = 96; // multiples of 16 up to 1024, then powers of two
static size_t bodyOf(size_t n) {
    size_t b = (n + 15) & ~(size_t)15;
    if (b <= 1024) {
        return b ? b : 16;
    }
    size_t p = 2048;
    while (p < n) {
        p *= 2;
    }
    return p;
}
static size_t classOf(size_t body) {
    if (body <= 1024) {
        return body / 16 - 1;
    }
    size_t k = 64;
    for (size_t p = 2048; p < body; p *= 2) {
        ++k;
    }
    return k;
}
static Head *g_freeHead[CLASSES], *g_freeTail[CLASSES];
static int g_freeCount[CLASSES];
static bool g_arenaReady = false;

static void mapArena() {
    auto m = [](uintptr_t at, size_t n) {
        void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)at) {
            static const char e[] = "simulator: can not map its memory\n";
            (void)!write(2, e, sizeof e - 1);
            _exit(4);
        }
    };
    m(ARENA, ARENA_SIZE);
    m(CELLS, ARENA_SIZE / 8 * sizeof(Cell));
    m(SHADOW, ARENA_SIZE / 8);
    g_arenaReady = true;
}
static void junk(void *p, size_t n) {
    if (g_env.heapSeed == 0) {
        __real_memset(p, 0xcb, n);
        return;
    }
    if (g_env.heapSeed == 1) {
        __real_memset(p, 0, n);
        return;
    }
    if (g_env.heapSeed == 2) {
        __real_memset(p, 0xff, n);
        return;
    }
    unsigned char *c = (unsigned char *)p;
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        if ((i & 7) == 0) {
            v = splitmix(g_heapRng);
        }
        c[i] = (unsigned char)v;
        v >>= 8;
    }
}
static void setShadowFree(uintptr_t p, size_t n, uint8_t v) {
    __real_memset(g_shadow + ((p - ARENA) >> 3), v, (n + 7) >> 3);
}
static void *arenaAlloc(size_t n, int kind) {
    if (!g_arenaReady) {
        mapArena();
    }
    Thr *t = tls;
    const size_t body = bodyOf(n);
    Head *h = nullptr;
    size_t cls = classOf(body);
    const bool tight = g_hi - g_lo < ARENA_SIZE / 2;
    if (cls < CLASSES && g_freeHead[cls]) {
        bool take = tight || g_env.heapPolicy == 1 || (g_env.heapPolicy == 3 && g_freeCount[cls] > 4) ||
                    (g_env.heapPolicy == 0 && g_freeCount[cls] > (body <= 1024 ? 4096 : 16));
        if (take) {
            h = g_freeHead[cls];
            g_freeHead[cls] = *(Head **)(h + 1);
            if (!g_freeHead[cls]) {
                g_freeTail[cls] = nullptr;
            }
            --g_freeCount[cls];
        }
    }
    if (!h) {
        size_t total = sizeof(Head) + body + 16 + (tight ? 0 : (size_t)g_env.heapGap * 16);
        if (g_lo + total >= g_hi) {
            fatal("arena-exhausted");
        }
        if (g_env.heapDown) {
            g_hi -= total;
            h = (Head *)g_hi;
        } else {
            h = (Head *)g_lo;
            g_lo += total;
        }
    }
    uintptr_t p = (uintptr_t)(h + 1);
    setShadowFree((uintptr_t)h, sizeof(Head), 0xfa);
    setShadowFree(p, body + 16, 0xfa);
    if (n >= 8) {
        __real_memset(g_shadow + ((p - ARENA) >> 3), 0, n >> 3);
    }
    if (n & 7) {
        g_shadow[((p - ARENA) >> 3) + (n >> 3)] = n & 7;
    }
    h->size = n;
    h->magic = MAGIC;
    h->thread = t ? t->id : 4;
    h->op = t ? t->op : 0;
    h->serial = ++g_serial;
    h->kind = kind;
    h->live = 1;
    h->inLibAlloc = inLib(t);
    ++g_liveBlocks;
    g_liveBytes += n;
    junk((void *)p, body);
    if (g_multi) {
        __real_memset(&g_cells[(p - ARENA) >> 3], 0, (body >> 3) * sizeof(Cell));
    }
    return (void *)p;
}
static void arenaFree(void *q, int kind, const void *pc) {
    if (!q) {
        return;
    }
    uintptr_t p = (uintptr_t)q;
    Head *h = (Head *)p - 1;
    Thr *t = tls;
    if (!isArenaA(p) || (p & 15) || h->magic != MAGIC) {
        violationAt("bad-free", pc, "not a block", 0, 0);
        fatal("memory");
    }
    if (!h->live) {
        violationAt("double-free", pc, "size", h->size, 0);
        fatal("memory");
    }
    if (h->kind != kind) {
        violationAt("mismatched-free", pc, "kinds", h->kind, kind);
    }
    const size_t n = h->size, body = bodyOf(n);
    if (g_multi && inLib(t) && n) {
        ++t->off;
        uintptr_t off = p - ARENA;
        for (size_t i = 0; i < n; i += 8) {
            raceCheck(t, g_cells[(off + i) >> 3], 0xff, true, false, p, pc);
        }
        --t->off;
    }
    h->live = 0;
    --g_liveBlocks;
    g_liveBytes -= n;
    junk(q, body);
    setShadowFree(p, body, 0xfd);
    const size_t cls = classOf(body);
    if (cls < CLASSES) {
        *(Head **)(h + 1) = nullptr;
        if (g_env.heapPolicy == 1) {
            *(Head **)(h + 1) = g_freeHead[cls];
            g_freeHead[cls] = h;
            if (!g_freeTail[cls]) {
                g_freeTail[cls] = h;
            }
        } else {
            if (g_freeTail[cls]) {
                *(Head **)(g_freeTail[cls] + 1) = h;
            } else {
                g_freeHead[cls] = h;
            }
            g_freeTail[cls] = h;
        }
        ++g_freeCount[cls];
    }
}
static void badAccess(uintptr_t a, size_t n, bool write, const void *pc) {
    uint8_t s = g_shadow[(a - ARENA) >> 3];
    uint8_t e = g_shadow[(a + n - 1 - ARENA) >> 3];
    const char *k = (s == 0xfd || e == 0xfd) ? "use-after-free" : "out-of-bounds";
    violationAt(k, pc, write ? "write" : "read", n, 0);
    fatal("memory");
}

void failAllAllocations(bool on) {
    g_failAll = on;
}

static bool faultHits(Thr *t, int kind, uint64_t n) {
    if (!t->faultsOn) {
        return false;
    }
    for (int i = 0; i < g_nfaults; ++i) {
        const FaultSpec &f = g_faults[i];
        if (f.kind != kind || f.thread != t->id) {
            continue;
        }
        if (f.op == t->op && (n == f.k || (f.persist && n > f.k))) {
            ++t->fired[kind];
            ++g_faultsFired[kind];
            mix(0xfa17ull + kind);
            mix(n);
            return true;
        }
    }
    return false;
}

// Where in the program an allocation is made: the nearest distinct return addresses inside this binary.
extern "C" char __executable_start, etext;
struct Site {
    uint64_t h, first, last, count;
};
static Site g_sites[160];
static int g_nsites = 0;
static bool g_recordSites = false;
void recordSites(bool on) {
    g_recordSites = on;
}
static void __attribute__((noinline)) noteSite(Thr *t) {
    uintptr_t fp = (uintptr_t)__builtin_frame_address(0), top = t->opSp + 4096;
    uintptr_t seen[5];
    int n = 0;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < 40 && n < 5; ++i) {
        const uintptr_t pc = ((uintptr_t *)fp)[1], up = *(uintptr_t *)fp;
        if (pc > (uintptr_t)&__executable_start && pc < (uintptr_t)&etext) {
            int k = 0;
            while (k < n && seen[k] != pc) {
                ++k;
            }
            if (k == n) {
                seen[n++] = pc;
                h = (h ^ pc) * 1099511628211ull;
            }
        }
        if (up <= fp || up > top || (up & 7)) {
            break;
        }
        fp = up;
    }
    for (int i = 0; i < g_nsites; ++i) {
        if (g_sites[i].h == h) {
            g_sites[i].last = t->allocs;
            ++g_sites[i].count;
            return;
        }
    }
    if (g_nsites < (int)(sizeof g_sites / sizeof *g_sites)) {
        g_sites[g_nsites++] = Site{h, t->allocs, t->allocs, 1};
    }
}
std::string sites() {
    std::string r;
    char b[80];
    for (int i = 0; i < g_nsites; ++i) {
        snprintf(b, sizeof b, " %llu,%llu,%llu,%llu", (unsigned long long)(g_sites[i].h >> 16), (unsigned long long)g_sites[i].first, (unsigned long long)g_sites[i].last,
                 (unsigned long long)g_sites[i].count);
        r += b;
    }
    return r;
}

// true: the allocation must fail
static bool allocPoint(size_t n) {
    Thr *t = tls;
    if (!inLib(t)) {
        return false;
    }
    step(t);
    ++t->allocs;
    mix(n ^ 0xa110c);
    if (g_recordSites && !g_multi) {
        noteSite(t);
    }
    if (g_failAll) {
        ++t->fired[F_ALLOC];
        ++g_faultsFired[F_ALLOC];
        return true;
    }
    if (faultHits(t, F_ALLOC, t->allocs)) {
        return true;
    }
    if (g_multi) {
        maybeSwitch(t, g_sched.wAlloc);
    }
    return false;
}
static void *newImpl(size_t n, int kind) {
    if (n > (1ull << 29) || allocPoint(n)) {
        throw std::bad_alloc();
    }
    return arenaAlloc(n, kind);
}
static void freePoint() {
    Thr *t = tls;
    if (!inLib(t)) {
        return;
    }
    step(t);
    mix(0xf4ee);
    if (g_multi) {
        maybeSwitch(t, g_sched.wAlloc);
    }
}
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ run control
// the distinct arguments exp was called with in the running operation
static const int POINTS = 8192;
static uint64_t g_points[MAXT][POINTS];
static void notePoint(Thr *t, double x) {
    uint64_t k;
    __real_memcpy(&k, &x, 8);
    k += 0x9e3779b97f4a7c15ull;
    if (!k) {
        k = 1;
    }
    for (uint64_t h = k * 0xff51afd7ed558ccdull >> 40; t->points < POINTS / 2; ++h) {
        uint64_t &e = g_points[t->id][h % POINTS];
        if (e == k) {
            return;
        }
        if (!e) {
            e = k;
            ++t->points;
            return;
        }
    }
}
void opBegin(int op, bool faultsOn) {
    Thr *t = tls;
    t->op = op;
    g_nsites = 0;
    t->acc = t->allocs = t->maths = t->invalids = t->undefs = 0;
    if (t->points) {
        t->points = 0;
        __real_memset(g_points[t->id], 0, sizeof g_points[t->id]);
    }
    t->fired[0] = t->fired[1] = 0;
    __real_memset(t->mathN, 0, sizeof t->mathN);
    t->faultsOn = faultsOn;
    t->opSp = t->minSp = (uintptr_t)__builtin_frame_address(0);
}
OpStat opEnd() {
    Thr *t = tls;
    if (g_watch) {
        watchCompare();
    }
    OpStat s;
    s.steps = t->acc;
    s.allocs = t->allocs;
    s.maths = t->maths;
    s.invalids = t->invalids;
    s.undefs = t->undefs;
    s.points = t->points;
    s.fired[0] = t->fired[0];
    s.fired[1] = t->fired[1];
    s.stack = t->opSp - t->minSp;
    mix(t->acc);
    mix(t->allocs);
    t->faultsOn = false;
    return s;
}
uint64_t mathCalls(int which) {
    return tls->mathN[which & 15];
}

void faults(bool on) {
    tls->faultsOn = on;
}
Lib::Lib() {
    ++tls->lib;
    saved = tls->off;
    tls->off = 0;
}
Lib::~Lib() {
    --tls->lib;
    tls->off = saved;
    if (g_watch) {
        watchCompare();
    }
}
Out::Out() {
    saved = 0;
    if (tls) {
        ++tls->off;
    }
}
Out::~Out() {
    if (tls) {
        --tls->off;
    }
}
NoFault::NoFault() {
    Thr *t = tls;
    savedF = t->faultsOn;
    t->faultsOn = false;
    savedLib = t->lib;
    savedOut = t->off;
    t->lib = 0;
    t->off = 0;
}
NoFault::~NoFault() {
    Thr *t = tls;
    t->faultsOn = savedF;
    t->lib = savedLib;
    t->off = savedOut;
}

void __attribute__((noinline)) junkStack(size_t bytes) {
    if (g_env.stackJunk == 0 || bytes == 0) {
        return;
    }
    uint64_t s = g_env.stackJunk;
    volatile unsigned char *b = (volatile unsigned char *)__builtin_alloca(bytes);
    for (size_t i = 0; i < bytes; i += 8) {
        *(volatile uint64_t *)(b + i) = g_env.stackJunk == 1 ? 0 : splitmix(s);
    }
}

static char g_altStack[MAXT][65536];
static void onSignal(int sig, siginfo_t *si, void *) {
    Thr *t = tls;
    const char *n = "signal";
    switch (sig) {
    case SIGSEGV:
        n = "segv";
        if (t && t->stackLow && (uintptr_t)si->si_addr >= t->stackLow - (1 << 20) &&
            (uintptr_t)si->si_addr < t->stackLow + 4096) {
            n = "stack-overflow";
        }
        break;
    case SIGABRT:
        n = "abort";
        break;
    case SIGFPE:
        n = "fpe";
        break;
    case SIGBUS:
        n = "bus";
        break;
    case SIGILL:
        n = "ill";
        break;
    case SIGALRM:
    case SIGPROF:
        n = "hang";
        break;
    }
    fatal(n);
}
static void onTerminate() {
    const char *name = "none";
    std::type_info *ti = abi::__cxa_current_exception_type();
    if (ti) {
        name = ti->name();
    }
    char b[200];
    snprintf(b, sizeof b, "terminate:%s", name);
    fatal(b);
}
static void altStack(int id) {
    stack_t ss;
    ss.ss_sp = g_altStack[id];
    ss.ss_size = sizeof g_altStack[id];
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
}

void initProcess() {
    if (!g_arenaReady) {
        mapArena();
    }
    g_globLo = ((uintptr_t)&__data_start) & ~7ull;
    g_globHi = ((uintptr_t)&_end + 7) & ~7ull;
    size_t cells = (g_globHi - g_globLo) / 8 + 1;
    g_globalCells = (Cell *)mmap(nullptr, cells * sizeof(Cell), PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    addExemptRange(&std::cout, sizeof std::cout);
    addExemptRange(&std::cerr, sizeof std::cerr);
    addExemptRange(&std::clog, sizeof std::clog);
    addExemptRange(&std::cin, sizeof std::cin);
    realCreate = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    realJoin = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    realDetach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    g_mainLow = (((uintptr_t)__builtin_frame_address(0) + (1 << 20)) & ~(uintptr_t)7) - MAIN_CELLS;
    std::set_terminate(onTerminate);
    altStack(4);
    struct sigaction sa;
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF}) {
        sigaction(s, &sa, nullptr);
    }
}

void configure(const Env &env, const SchedSpec &sched, const FaultSpec *faults, int nfaults, uint64_t budget) {
    g_env = env;
    g_sched = sched;
    g_faults = faults;
    g_nfaults = nfaults;
    g_budget = budget ? budget : ~0ull;
    g_rng = sched.seed * 0x9e3779b97f4a7c15ull + 12345;
    g_heapRng = env.heapSeed;
    g_simNs = env.timeBase;
    g_wallOff = 0;
    g_entropy = env.timeBase ^ 0x5eed;
    g_clockRng = env.timeBase ^ 0xc10c;
    // blocks freed before the run are not reused by it
    for (int i = 0; i < CLASSES; ++i) {
        g_freeHead[i] = g_freeTail[i] = nullptr;
        g_freeCount[i] = 0;
    }
}

// ------------------------------------------------------------------ the life of the process
} // namespace rt
extern "C" {
extern void (*__start_siminit[])() __attribute__((weak));
extern void (*__stop_siminit[])() __attribute__((weak));
int __real___cxa_atexit(void (*)(void *), void *, void *);
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
}
namespace rt {
struct Ending {
    void (*f)(void *);
    void *arg;
    int thread; // -1: a static object
};
static Ending g_endings[4096];
static int g_nEndings = 0;
static bool g_life = false;
static bool g_initDone[4096];

void libraryInit(uint64_t seed, int count) {
    const int n = __start_siminit ? (int)(__stop_siminit - __start_siminit) : 0;
    int order[4096];
    for (int i = 0; i < n; ++i) {
        order[i] = i;
    }
    if (seed) {
        for (int i = n - 1; i > 0; --i) {
            const int j = (int)(splitmix(seed) % (uint64_t)(i + 1));
            std::swap(order[i], order[j]);
        }
    }
    for (int i = 0; i < n && count != 0; ++i) {
        const int k = order[i];
        if (!g_initDone[k]) {
            g_initDone[k] = true;
            --count;
            if (__start_siminit[k]) {
                if (tls) {
                    Lib l;
                    __start_siminit[k]();
                } else {
                    __start_siminit[k]();
                }
            }
        }
    }
}
void libraryLife(bool on) {
    g_life = on;
}
static bool keepEnding(void (*f)(void *), void *arg, int thread) {
    // what belongs to a simulated thread ends when it does, before the next one is chosen
    const bool own = thread >= 0 && tls && tls->state != Thr::NONE && tls->id != 4 && !tls->onMain;
    if ((!g_life && !own) || !tls || g_nEndings == 4096) {
        return false;
    }
    g_endings[g_nEndings++] = {f, arg, thread};
    return true;
}
static void runEndings(int thread) {
    for (int i = g_nEndings - 1; i >= 0; i = std::min(i, g_nEndings) - 1) {
        if (g_endings[i].thread != thread) {
            continue;
        }
        const Ending e = g_endings[i];
        for (int k = i; k + 1 < g_nEndings; ++k) {
            g_endings[k] = g_endings[k + 1];
        }
        --g_nEndings;
        {
            Lib l;
            e.f(e.arg);
        }
        i = g_nEndings; // what registered meanwhile goes first
    }
}
void libraryExit() {
    runEndings(-1);
}
void libraryThreadExit() {
    runEndings(tls->id);
}

static void endThread(Thr *t);
static void *threadMain(void *arg) {
    Thr *t = (Thr *)arg;
    tls = t;
    altStack(t->id);
    waitTurn(t);
    newCountdown(t);
    t->body(t->id);
    libraryThreadExit();
    endThread(t);
    return nullptr;
}
static void endThread(Thr *t) { // done: give the baton away
    ++t->off;
    t->state = t->id < 4 ? Thr::DONE : Thr::NONE;
    if (t->id < 4) {
        joinVC(g_thr[4].vc, t->vc);
    }
    wakeWaiters(t);
    int u = forcedChoice(t);
    if (u < 0) {
        for (int i = 0; i < 4; ++i) {
            if (g_thr[i].state == Thr::BLOCKED) {
                fatal("deadlock");
            }
        }
        u = 4;
    }
    tls = nullptr; // its place may be another thread's from here on
    passTo(u);
}

// What one part of a run did happens before the next part
static VC g_past;
static void startClock(Thr *t, int id) {
    *t = Thr();
    t->id = id;
    t->vc[id] = 1;
    if (g_workers) {
        joinVC(t->vc, g_past);
        ++t->vc[id];
    }
}
void runOnController(void (*body)(int), int id) {
    Thr *t = &g_thr[id];
    startClock(t, id);
    t->state = Thr::RUNNABLE;
    t->onMain = true;
    if (g_workers) {
        newCountdown(t);
    }
    tls = t;
    body(id);
    tls = nullptr;
    t->state = Thr::NONE;
    joinVC(g_past, t->vc);
}

// ------------------------------------------------------------------ threads the library starts for itself
struct Worker {
    pthread_t th;
    void *(*f)(void *);
    void *arg, *ret;
    Thr *t;
    VC vc;
    bool used, detached, ended;
};
static Worker g_worker[256];
constexpr size_t WORKER_STACK = 8 << 20, WORKER_GAP = 16 << 20;
static uintptr_t workerStack(Worker *w) {
    return STACKS + 5 * STACK_GAP + (uintptr_t)(w - g_worker) * WORKER_GAP;
}

static void *workerMain(void *arg) {
    Worker *w = (Worker *)arg;
    Thr *t = w->t;
    tls = t;
    altStack(t->id);
    waitTurn(t);
    newCountdown(t);
    t->opSp = t->minSp = (uintptr_t)__builtin_frame_address(0);
    t->lib = 1;
    w->ret = w->f(w->arg);
    t->lib = 0;
    libraryThreadExit();
    __real_memcpy(w->vc, t->vc, sizeof w->vc);
    w->ended = true;
    wakeWaiters(w);
    wakeWaiters(g_worker);
    endThread(t);
    return nullptr;
}
static void forget(Worker *w) { // it has ended and will not be joined any more
    realJoin(w->th, nullptr);
    munmap((void *)workerStack(w), WORKER_GAP);
    w->used = false;
}
static int startWorker(Thr *me, pthread_t *th, void *(*f)(void *), void *arg, bool detached) {
    Thr *t = nullptr;
    while (!t) {
        bool running = false;
        for (int i = 5; i < MAXT && !t; ++i) {
            if (g_thr[i].state == Thr::NONE) {
                t = &g_thr[i];
            }
            running |= g_thr[i].state == Thr::RUNNABLE;
        }
        if (!t) {
            if (!running) {
                return EAGAIN;
            }
            yieldNow(me);
        }
    }
    if (!g_workers) {
        void *p = mmap(g_stackCells, (MAIN_CELLS + STACK_CELLS) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != g_stackCells) {
            fatal("no-stack");
        }
    }
    Worker *w = nullptr;
    for (Worker &x : g_worker) {
        if (x.used && x.detached && x.ended) {
            forget(&x);
        }
        if (!x.used && !w) {
            w = &x;
        }
    }
    if (!w) {
        return EAGAIN;
    }
    ++g_workers;
    *w = Worker();
    w->f = f;
    w->arg = arg;
    w->t = t;
    w->used = true;
    w->detached = detached;
    const int id = (int)(t - g_thr);
    const uint32_t past = t->vc[id];
    *t = Thr();
    t->id = id;
    joinVC(t->vc, me->vc);
    t->vc[id] = past + 1;
    ++me->vc[me->id];
    t->op = 1000000 + g_workers; // every started thread has its own number
    g_tracePos[id] = 0;
    g_multi = g_simRunning = true;
    const size_t guard = 1 << 20;
    const uintptr_t base = workerStack(w);
    void *p = mmap((void *)base, WORKER_GAP, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)base || mprotect(p, guard, PROT_NONE) != 0) {
        fatal("no-stack");
    }
    madvise(g_stackCells + (MAIN_CELLS + (base - STACKS)) / 8, WORKER_GAP / 8 * sizeof(Cell), MADV_DONTNEED);
    t->stackLow = base + guard;
    t->stackBase = base + guard + WORKER_STACK;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)t->stackLow, WORKER_STACK);
    t->state = Thr::RUNNABLE;
    ++me->off;
    const int r = realCreate(&w->th, &at, workerMain, w);
    --me->off;
    pthread_attr_destroy(&at);
    if (r != 0) {
        fatal("no-thread");
    }
    *th = w->th;
    return 0;
}
static Worker *workerOf(pthread_t th) {
    for (Worker &w : g_worker) {
        if (w.used && w.th == th) {
            return &w;
        }
    }
    return nullptr;
}

void runThreads(int n, void (*body)(int), const size_t *stackKiB) {
    g_nthreads = n;
    Thr &c = g_thr[4];
    startClock(&c, 4);
    pthread_t th[MAXT];
    for (int i = 0; i < n; ++i) {
        Thr *t = &g_thr[i];
        startClock(t, i);
        t->state = Thr::RUNNABLE;
        t->body = body;
        size_t sz = (stackKiB[i] ? stackKiB[i] : 8192) * 1024;
        uintptr_t base = STACKS + (uintptr_t)i * STACK_GAP;
        size_t guard = 1 << 20;
        void *p = mmap((void *)base, guard + sz, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)base || mprotect(p, guard, PROT_NONE) != 0) {
            fatal("no-stack");
        }
        t->stackLow = base + guard;
        t->stackBase = base + guard + sz;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void *)(base + guard), sz);
        if (realCreate(&th[i], &at, threadMain, t) != 0) {
            fatal("no-thread");
        }
        pthread_attr_destroy(&at);
    }
    g_multi = n > 1 || g_workers;
    g_simRunning = true;
    int first = g_sched.first < n ? g_sched.first : 0;
    record(4, 0, ~0ull - 1, first);
    passTo(first);
    waitTurn(&c);
    joinVC(g_past, c.vc);
    if (!g_workers) {
        g_simRunning = false;
        g_multi = false;
    }
    for (int i = 0; i < n; ++i) {
        realJoin(th[i], nullptr);
        g_thr[i].state = Thr::NONE;
    }
}

// ------------------------------------------------------------------ simulated sinks
void SimBuf::put(char c) {
    if (n == cap) {
        cap = cap ? cap * 2 : 4096;
        buf = (char *)__real_realloc(buf, cap);
    }
    buf[n++] = c;
}
bool SimBuf::failing() {
    if (mode == OK || n < failAt) {
        return false;
    }
    ++failures;
    return true;
}
std::streamsize SimBuf::xsputn(const char *s, std::streamsize len) {
    Out out;
    if (mode == REFUSE && n + (uint64_t)len > failAt) {
        ++failures;
        return 0;
    }
    std::streamsize i = 0;
    for (; i < len; ++i) {
        if (failing()) {
            if (mode == THROW) {
                throw SimIoError{5};
            }
            return i;
        }
        put(s[i]);
    }
    return i;
}
SimBuf::int_type SimBuf::overflow(int_type c) {
    Out out;
    if (traits_type::eq_int_type(c, traits_type::eof())) {
        return traits_type::not_eof(c);
    }
    if (failing()) {
        if (mode == THROW) {
            throw SimIoError{5};
        }
        return traits_type::eof();
    }
    put((char)c);
    return c;
}
int SimBuf::sync() {
    Out out;
    if (mode != OK && n >= failAt) {
        ++failures;
        if (mode == THROW) {
            throw SimIoError{5};
        }
        return -1;
    }
    return 0;
}

void warmLocale() {
    std::stringstream ss;
    double d = 0;
    int i = 0;
    bool b = false;
    void *p = nullptr;
    ss << 1.5 << ' ' << 3 << ' ' << 4ul << ' ' << true << ' ' << (void *)&ss << ' ' << 2.5 << " 7 1 0x1 ";
    ss >> d >> i;
    ss.str("1.5 7 1 0x1");
    ss.clear();
    ss >> d >> i >> b >> p;
    (void)std::use_facet<std::ctype<char>>(std::locale()).narrow('a', 'b');
    (void)std::use_facet<std::ctype<char>>(std::locale()).widen('a');
    char x[3] = {'a', 'b', 'c'};
    char y[3];
    std::use_facet<std::ctype<char>>(std::locale()).narrow(x, x + 3, '?', y);
    std::use_facet<std::ctype<char>>(std::locale()).widen(x, x + 3, y);
    for (int k = 0; k < 256; ++k) {
        (void)std::use_facet<std::ctype<char>>(std::locale()).narrow((char)k, 0);
        (void)std::use_facet<std::ctype<char>>(std::locale()).widen((char)k);
    }
}

} // namespace rt

using namespace rt;

// ------------------------------------------------------------------ operator new and delete
void *operator new(size_t n) {
    return newImpl(n, 1);
}
void *operator new[](size_t n) {
    return newImpl(n, 2);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    return n > (1ull << 29) || allocPoint(n) ? nullptr : arenaAlloc(n, 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    return n > (1ull << 29) || allocPoint(n) ? nullptr : arenaAlloc(n, 2);
}
void operator delete(void *p) noexcept {
    if (p) {
        freePoint();
        arenaFree(p, 1, PC);
    }
}
void operator delete[](void *p) noexcept {
    if (p) {
        freePoint();
        arenaFree(p, 2, PC);
    }
}
void operator delete(void *p, size_t n) noexcept {
    if (p) {
        freePoint();
        if (isArena(p) && ((Head *)p - 1)->magic == MAGIC && ((Head *)p - 1)->live && ((Head *)p - 1)->size != n) {
            violation("bad-sized-delete", "block %llu given %llu", (unsigned long long)((Head *)p - 1)->size,
                      (unsigned long long)n);
        }
        arenaFree(p, 1, PC);
    }
}
void operator delete[](void *p, size_t) noexcept {
    if (p) {
        freePoint();
        arenaFree(p, 2, PC);
    }
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
    operator delete(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
    operator delete[](p);
}

extern "C" {
int __wrap___cxa_atexit(void (*f)(void *), void *arg, void *dso) {
    return keepEnding(f, arg, -1) ? 0 : __real___cxa_atexit(f, arg, dso);
}
int __wrap___cxa_thread_atexit(void (*f)(void *), void *arg, void *dso) {
    return tls && keepEnding(f, arg, tls->id) ? 0 : __real___cxa_thread_atexit(f, arg, dso);
}
// ------------------------------------------------------------------ C allocation by the library
void *__wrap_malloc(size_t n) {
    if (!inLib(tls)) {
        return __real_malloc(n);
    }
    if (n > (1ull << 29) || allocPoint(n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return arenaAlloc(n, 3);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!inLib(tls)) {
        return __real_calloc(a, b);
    }
    void *p = __wrap_malloc(a * b);
    if (p) {
        __real_memset(p, 0, a * b);
    }
    return p;
}
void __wrap_free(void *p) {
    if (!p) {
        return;
    }
    if (isArena(p)) {
        freePoint();
        arenaFree(p, 3, PC);
    } else {
        __real_free(p);
    }
}
void *__wrap_realloc(void *p, size_t n) {
    if (!inLib(tls) && (!p || !isArena(p))) {
        return __real_realloc(p, n);
    }
    void *q = __wrap_malloc(n);
    if (q && p) {
        size_t old = ((Head *)p - 1)->size;
        __real_memcpy(q, p, old < n ? old : n);
        __wrap_free(p);
    }
    return q;
}

// ------------------------------------------------------------------ block operations
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    access0(s, n, false, PC);
    access0(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    access0(s, n, false, PC);
    access0(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    access0(d, n, true, PC);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    access0(a, n, false, PC);
    access0(b, n, false, PC);
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char *s) {
    size_t n = __real_strlen(s);
    access0(s, n + 1, false, PC);
    return n;
}

// ------------------------------------------------------------------ arithmetic
static double mathPoint(int which, double x, double y, double r) {
    Thr *t = tls;
    if (!inLib(t)) {
        return r;
    }
    step(t);
    ++t->maths;
    ++t->mathN[which & 15];
    if (which == 10) {
        notePoint(t, x);
    }
    if (faultHits(t, F_MATH, t->maths)) {
        r = NAN;
    }
    if (!(r - r == 0) && x - x == 0 && y - y == 0) { // an invalid number arises
        ++t->invalids;
        t->undefs += which != 6 && which != 11 && !(which == 7 && (x == 2 || x == 10)); // log 2, log 10: constants of differentiation
    }
    return r;
}
#define MATH1(i, f)                                                                                                    \
    double __real_##f(double);                                                                                        \
    double __wrap_##f(double x) {                                                                                     \
        return mathPoint(i, x, 0, __real_##f(x));                                                                           \
    }
MATH1(0, sin)
MATH1(1, cos)
MATH1(2, tan)
MATH1(3, asin)
MATH1(4, acos)
MATH1(5, atan)
MATH1(6, sqrt)
MATH1(7, log)
MATH1(8, log2)
MATH1(9, log10)
MATH1(10, exp)
double __real_pow(double, double);
double __wrap_pow(double x, double y) {
    return mathPoint(11, x, y, __real_pow(x, y));
}

// ------------------------------------------------------------------ instrumentation hooks
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) {                                                                                    \
        access(p, n, false, PC);                                                                                      \
    }                                                                                                                 \
    void __tsan_write##n(void *p) {                                                                                   \
        access(p, n, true, PC);                                                                                       \
    }                                                                                                                 \
    void __tsan_unaligned_read##n(void *p) {                                                                          \
        access(p, n, false, PC);                                                                                      \
    }                                                                                                                 \
    void __tsan_unaligned_write##n(void *p) {                                                                         \
        access(p, n, true, PC);                                                                                       \
    }                                                                                                                 \
    void __tsan_volatile_read##n(void *p) {                                                                           \
        access(p, n, false, PC);                                                                                      \
    }                                                                                                                 \
    void __tsan_volatile_write##n(void *p) {                                                                          \
        access(p, n, true, PC);                                                                                       \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
    access0(p, n, false, PC);
}
void __tsan_write_range(void *p, size_t n) {
    access0(p, n, true, PC);
}
void __tsan_init() {}
void __tsan_vptr_update(void **p, void *) {
    access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) {
    access(p, 8, false, PC);
}
void __tsan_func_entry(void *) {
    Thr *t = tls;
    if (!inLib(t)) {
        return;
    }
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (sp < t->minSp) {
        t->minSp = sp;
    }
    if (g_multi) {
        step(t);
        maybeSwitch(t, g_sched.wFunc);
    }
}
void __tsan_func_exit() {}

static Thr *atomicPoint(const volatile void *a, size_t n, bool write, int mo, const void *pc) {
    Thr *t = tls;
    if (!inLib(t)) {
        return nullptr;
    }
    accessRange(t, (uintptr_t)a, n, write, true, pc);
    if (g_multi) {
        Sync *s = syncOf((const void *)a);
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) {
            acquireFrom(t, s);
        }
        if (write && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) {
            releaseTo(t, s);
        }
    }
    return t;
}
#define ATOMIC(bits, T)                                                                                                \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                       \
        atomicPoint(a, sizeof(T), false, mo, PC);                                                                     \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                 \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                    \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                    \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                                                   \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                                                   \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                                                   \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                                                    \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                                                   \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                                                  \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                        \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
    }                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) {                          \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
    }                                                                                                                 \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) {                              \
        atomicPoint(a, sizeof(T), true, mo, PC);                                                                      \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                             \
        return c;                                                                                                     \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
    Thr *t = tls;
    if (inLib(t) && g_multi) {
        static char fence;
        Sync *s = syncOf(&fence);
        acquireFrom(t, s);
        releaseTo(t, s);
    }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ synchronisation, under the scheduler
static Thr *simThread() {
    Thr *t = tls;
    return t && g_simRunning && g_multi ? t : nullptr;
}
// Locks are kept account of in every run: a thread may wait for itself
static Thr *lockThread() {
    Thr *t = tls;
    return simThread() || inLib(t) ? t : nullptr;
}
static void syncPoint(Thr *t) {
    if (inLib(t)) {
        step(t);
        if (g_multi) {
            maybeSwitch(t, g_sched.wAtomic);
        }
    }
}

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    Thr *t = tls;
    if (!inLib(t)) {
        return realCreate(th, at, f, arg);
    }
    syncPoint(t);
    int state = PTHREAD_CREATE_JOINABLE;
    if (at) {
        pthread_attr_getdetachstate(at, &state);
    }
    return startWorker(t, th, f, arg, state == PTHREAD_CREATE_DETACHED);
}
int pthread_join(pthread_t th, void **ret) {
    Thr *t = simThread();
    Worker *w = t ? workerOf(th) : nullptr;
    if (!w) {
        return realJoin(th, ret);
    }
    syncPoint(t);
    while (!w->ended) {
        blockOn(t, w);
    }
    joinVC(t->vc, w->vc);
    if (ret) {
        *ret = w->ret;
    }
    ++t->off;
    forget(w);
    --t->off;
    return 0;
}
int pthread_detach(pthread_t th) {
    Thr *t = simThread();
    Worker *w = t ? workerOf(th) : nullptr;
    if (!w) {
        return realDetach(th);
    }
    w->detached = true; // its place is given up when another one is needed
    return 0;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    Thr *t = simThread();
    if (n == SYS_futex && t) { // the waiting inside std::future and std::latch
        const int cmd = (int)a[1] & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            syncPoint(t);
            if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            if (a[3]) {
                yieldNow(t);
                errno = ETIMEDOUT;
                return -1;
            }
            blockOn(t, (void *)a[0]);
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            wakeWaiters((void *)a[0], a[2] == 1);
            return 1;
        }
    }
    const long r = rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    syncPoint(t);
    Sync *s = syncOf(m);
    if (s->state && s->owner == t->id) {
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++s->depth;
            return 0;
        }
        fatal("deadlock"); // locked again by its owner
    }
    while (s->state) {
        blockOn(t, m);
    }
    s->state = 1;
    s->owner = t->id;
    s->depth = 1;
    acquireFrom(t, s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    syncPoint(t);
    Sync *s = syncOf(m);
    if (s->state) {
        if (s->owner == t->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++s->depth;
            return 0;
        }
        return EBUSY;
    }
    s->state = 1;
    s->owner = t->id;
    s->depth = 1;
    acquireFrom(t, s);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    Sync *s = syncOf(m);
    if (--s->depth > 0) {
        return 0;
    }
    s->state = 0;
    s->owner = -1;
    releaseTo(t, s);
    wakeWaiters(m);
    syncPoint(t);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    syncPoint(t);
    Sync *s = syncOf(m);
    while (s->owner >= 0) {
        blockOn(t, m);
    }
    ++s->state;
    acquireFrom(t, s);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    syncPoint(t);
    Sync *s = syncOf(m);
    while (s->owner >= 0 || s->state > 0) {
        blockOn(t, m);
    }
    s->owner = t->id;
    acquireFrom(t, s);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    Thr *t = lockThread();
    if (!t) {
        return 0;
    }
    Sync *s = syncOf(m);
    if (s->owner == t->id) {
        s->owner = -1;
    } else if (s->state > 0) {
        --s->state;
    }
    releaseTo(t, s);
    wakeWaiters(m);
    syncPoint(t);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    Thr *t = simThread();
    if (!t) {
        return 0;
    }
    pthread_mutex_unlock(m);
    blockOn(t, c);
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    Thr *t = simThread();
    if (!t) {
        return ETIMEDOUT;
    }
    (void)c;
    pthread_mutex_unlock(m);
    yieldNow(t);
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (simThread()) {
        wakeWaiters(c, true);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (simThread()) {
        wakeWaiters(c);
    }
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    Thr *t = simThread();
    if (t) {
        syncPoint(t);
    }
    Sync *s = syncOf(o);
    while (s->state == 1) {
        if (!t || s->owner == t->id) {
            fatal("deadlock");
        }
        blockOn(t, o);
    }
    if (s->state == 2) {
        if (t) {
            acquireFrom(t, s);
        }
        return 0;
    }
    s->state = 1;
    s->owner = t ? t->id : 4;
    struct Guard {
        Sync *s;
        const void *o;
        Thr *t;
        bool ok = false;
        ~Guard() {
            s->state = ok ? 2 : 0;
            if (t) {
                releaseTo(t, s);
                wakeWaiters(o);
            }
        }
    } g{s, o, t};
    f();
    g.ok = true;
    return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    if (*(volatile char *)g) {
        Thr *t = simThread();
        if (t) {
            acquireFrom(t, syncOf(g));
        }
        return 0;
    }
    Thr *t = simThread();
    if (t) {
        syncPoint(t);
    }
    Sync *s = syncOf(g);
    while (s->state == 1) {
        if (!t || s->owner == t->id) {
            fatal("deadlock");
        }
        blockOn(t, g);
    }
    if (*(volatile char *)g) {
        if (t) {
            acquireFrom(t, s);
        }
        return 0;
    }
    s->state = 1;
    s->owner = t ? t->id : 4;
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    Thr *t = simThread();
    Sync *s = syncOf(g);
    s->state = 2;
    *(volatile char *)g = 1;
    if (t) {
        releaseTo(t, s);
        wakeWaiters(g);
        syncPoint(t);
    }
}
void __cxa_guard_abort(uint64_t *g) {
    Thr *t = simThread();
    Sync *s = syncOf(g);
    s->state = 0;
    if (t) {
        wakeWaiters(g);
    }
}
int sched_yield() {
    Thr *t = simThread();
    if (t) {
        yieldNow(t);
    }
    return 0;
}

// ------------------------------------------------------------------ clocks and entropy
static bool simTime() {
    return inLib(tls);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!simTime()) {
        return (int)rawSyscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    }
    step(tls);
    const Env &e = g_env;
    if (e.timeTick) {
        g_simNs += splitmix(g_clockRng) % e.timeTick;
    }
    const bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
    if (wall && e.timeJump && splitmix(g_clockRng) % e.timeJump == 0) {
        g_wallOff = splitmix(g_clockRng) % (1ull << 43); // somewhere within two and a half hours
    }
    uint64_t ns = g_simNs + g_steps * e.timeRate;
    if (wall) {
        ns += 1700000000ull * 1000000000ull + g_wallOff;
    }
    ts->tv_sec = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    return 0;
}
clock_t clock() {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int timespec_get(struct timespec *ts, int base) {
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) {
        *p = ts.tv_sec;
    }
    return ts.tv_sec;
}
int nanosleep(const struct timespec *ts, struct timespec *) {
    g_simNs += ts->tv_sec * 1000000000ull + ts->tv_nsec;
    Thr *t = simThread();
    if (t) {
        yieldNow(t);
    }
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *) {
    return nanosleep(ts, nullptr);
}
int usleep(useconds_t us) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
ssize_t getrandom(void *p, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) {
        ((unsigned char *)p)[i] = (unsigned char)splitmix(g_entropy);
    }
    return (ssize_t)n;
}
int getentropy(void *p, size_t n) {
    getrandom(p, n, 0);
    return 0;
}
uint32_t arc4random() {
    uint32_t v;
    getrandom(&v, 4, 0);
    return v;
}

// ------------------------------------------------------------------ facts about the process and the machine
// What library code is told when it asks is decided by the seed of the run: a call whose outcome depends on any of
// these does not repeat elsewhere. Code of the harness, and of the C library on its own account, gets the truth.
static uint64_t fact(const char *what, uint64_t n = 0) {
    uint64_t h = g_env.facts + n * 0x9e3779b97f4a7c15ull;
    for (; *what; ++what) {
        h = (h ^ (unsigned char)*what) * 1099511628211ull;
    }
    return splitmix(h);
}
static char *envFact(const char *name) {
    static char texts[][16] = {"", "0", "1", "-1", "2", "8", "0.5", "1e-3", "true", "no", "C", "/nowhere", "de_DE.UTF-8", "debug"};
    const uint64_t f = fact(name);
    return g_env.facts && f % 4 ? texts[(f >> 8) % (sizeof(texts) / sizeof(texts[0]))] : nullptr;
}
char *getenv(const char *name) noexcept {
    static auto next = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    return simTime() ? envFact(name) : next(name);
}
char *secure_getenv(const char *name) noexcept {
    static auto next = (char *(*)(const char *))dlsym(RTLD_NEXT, "secure_getenv");
    return simTime() ? envFact(name) : next(name);
}
pid_t getpid() noexcept {
    return simTime() ? (pid_t)(g_env.facts ? 2 + fact("pid") % 4000000 : 1000) : (pid_t)rawSyscall(SYS_getpid, 0, 0, 0, 0, 0, 0);
}
pid_t getppid() noexcept {
    return simTime() ? (pid_t)(g_env.facts ? 1 + fact("ppid") % 4000000 : 1) : (pid_t)rawSyscall(SYS_getppid, 0, 0, 0, 0, 0, 0);
}
int isatty(int fd) noexcept {
    static auto next = (int (*)(int))dlsym(RTLD_NEXT, "isatty");
    return simTime() ? (int)(g_env.facts && fact("tty", fd) % 2) : next(fd);
}
static int processors() {
    static const int counts[] = {1, 2, 3, 4, 16, 128};
    return g_env.facts ? counts[fact("cpus") % 6] : 4;
}
int get_nprocs() noexcept {
    static auto next = (int (*)())dlsym(RTLD_NEXT, "get_nprocs");
    return simTime() ? processors() : next();
}
int get_nprocs_conf() noexcept {
    static auto next = (int (*)())dlsym(RTLD_NEXT, "get_nprocs_conf");
    return simTime() ? processors() : next();
}
long sysconf(int what) noexcept {
    static auto next = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (simTime() && (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF)) {
        return processors();
    }
    return next(what);
}
int sched_getcpu() noexcept {
    static auto next = (int (*)())dlsym(RTLD_NEXT, "sched_getcpu");
    return simTime() ? (int)(g_env.facts ? fact("cpu", g_steps) % processors() : 0) : next();
}
} // extern "C"

// libstdc++ asks the processor itself
unsigned randomDeviceGet(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned randomDeviceGet(void *) {
    return arc4random();
}


// ------------------------------------------------------------------ standard output by way of the C library
// What library code writes to stdout or stderr without the C++ streams reaches the same simulated outputs.
static bool simOut(FILE *f, const char *s, size_t n, size_t &done) {
    if (!simTime() || (f != stdout && f != stderr)) {
        return false;
    }
    step(tls);
    rt::Out out;
    done = 0;
    try {
        done = (size_t)(f == stdout ? std::cout : std::cerr).rdbuf()->sputn(s, (std::streamsize)n);
    } catch (...) {
    }
    return true;
}
static int simPrint(FILE *f, const char *fmt, va_list ap, bool &used) {
    used = simTime() && (f == stdout || f == stderr);
    if (!used) {
        return 0;
    }
    va_list ap2;
    va_copy(ap2, ap);
    rt::Out out;
    const int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if (n < 0) {
        return n;
    }
    char *b = (char *)__real_realloc(nullptr, (size_t)n + 1);
    vsnprintf(b, (size_t)n + 1, fmt, ap);
    size_t done = 0;
    try {
        done = (size_t)(f == stdout ? std::cout : std::cerr).rdbuf()->sputn(b, n);
    } catch (...) {
    }
    __real_free(b);
    return done == (size_t)n ? n : -1;
}
extern "C" {
int vfprintf(FILE *f, const char *fmt, va_list ap) {
    static auto next = (int (*)(FILE *, const char *, va_list))dlsym(RTLD_NEXT, "vfprintf");
    bool used;
    const int r = simPrint(f, fmt, ap, used);
    return used ? r : next(f, fmt, ap);
}
int vprintf(const char *fmt, va_list ap) {
    return vfprintf(stdout, fmt, ap);
}
int __vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) {
    return vfprintf(f, fmt, ap);
}
int __vprintf_chk(int, const char *fmt, va_list ap) {
    return vfprintf(stdout, fmt, ap);
}
#define SIM_PRINT(f)                                                                                                                       \
    va_list ap;                                                                                                                            \
    va_start(ap, fmt);                                                                                                                     \
    const int r = vfprintf(f, fmt, ap);                                                                                                    \
    va_end(ap);                                                                                                                            \
    return r
int printf(const char *fmt, ...) {
    SIM_PRINT(stdout);
}
int fprintf(FILE *f, const char *fmt, ...) {
    SIM_PRINT(f);
}
int __printf_chk(int, const char *fmt, ...) {
    SIM_PRINT(stdout);
}
int __fprintf_chk(FILE *f, int, const char *fmt, ...) {
    SIM_PRINT(f);
}
size_t fwrite(const void *p, size_t size, size_t n, FILE *f) {
    static auto next = (size_t (*)(const void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fwrite");
    size_t done;
    return simOut(f, (const char *)p, size * n, done) ? (size ? done / size : 0) : next(p, size, n, f);
}
int fputs(const char *s, FILE *f) {
    static auto next = (int (*)(const char *, FILE *))dlsym(RTLD_NEXT, "fputs");
    size_t done, n = strlen(s);
    return simOut(f, s, n, done) ? (done == n ? 1 : EOF) : next(s, f);
}
int puts(const char *s) {
    static auto next = (int (*)(const char *))dlsym(RTLD_NEXT, "puts");
    size_t done, n = strlen(s);
    if (!simOut(stdout, s, n, done)) {
        return next(s);
    }
    if (done == n) {
        simOut(stdout, "\n", 1, done);
        return done == 1 ? 1 : EOF;
    }
    return EOF;
}
int fputc(int c, FILE *f) {
    static auto next = (int (*)(int, FILE *))dlsym(RTLD_NEXT, "fputc");
    size_t done;
    const char b = (char)c;
    return simOut(f, &b, 1, done) ? (done == 1 ? (unsigned char)c : EOF) : next(c, f);
}
int putc(int c, FILE *f) {
    return fputc(c, f);
}
int putchar(int c) {
    return fputc(c, stdout);
}
int fflush(FILE *f) {
    static auto next = (int (*)(FILE *))dlsym(RTLD_NEXT, "fflush");
    return simTime() && (f == stdout || f == stderr || !f) ? 0 : next(f);
}
ssize_t write(int fd, const void *p, size_t n) {
    size_t done;
    if ((fd == 1 || fd == 2) && simOut(fd == 1 ? stdout : stderr, (const char *)p, n, done)) {
        return done || !n ? (ssize_t)done : (errno = EIO, -1);
    }
    const long r = rawSyscall(SYS_write, fd, (long)p, (long)n, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
} // extern "C"
