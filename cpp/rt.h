// The simulator runtime: everything nondeterministic that the library could meet is decided here.
// rt.cpp is compiled without instrumentation; ops.cpp and the library are compiled with
// -fsanitize=thread code generation and call the __tsan_* hooks that rt.cpp defines.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <streambuf>

namespace rt {

constexpr int MAXT = 11; // four caller threads, the controller (index 4) and threads started by the library (from 5)

enum Fault { F_ALLOC = 0, F_MATH = 1, F_KINDS = 2 };

struct FaultSpec {
    int thread, op, kind;
    uint64_t k;
    bool persist;
};

struct Switch {
    int from, op;
    uint64_t acc; // access number inside the operation; ~0 for a forced switch
    int to;
};

struct Env {
    uint64_t heapSeed = 0;   // contents of fresh and freed memory
    int heapPolicy = 0;      // 0 quarantine, 1 last-in-first-out reuse, 2 never reuse, 3 first-in-first-out
    int heapGap = 0;         // extra bytes between blocks
    int heapDown = 0;        // addresses grow downwards
    uint64_t stackJunk = 0;  // 0: none
    uint64_t timeBase = 0;   // what clocks read first; also seeds entropy
    uint64_t timeRate = 1000; // nanoseconds per step
    uint64_t timeTick = 0;   // every reading moves the clocks on by up to this much
    int timeJump = 0;        // the wall clock is set, forwards or backwards, at every how-many-th reading (0: never)
    uint64_t facts = 0;      // environment variables, process id, processors, terminal ... (0: the plain ones)
};

struct SchedSpec {
    bool explicitTrace = false;
    uint64_t seed = 0;
    uint64_t gap = 0; // mean weighted distance between switches; 0: no random switches
    int wStack = 0, wHeap = 1, wShared = 24, wGlobal = 48, wAtomic = 48, wAlloc = 8, wFunc = 1;
    int first = 0;
    Switch *trace = nullptr;
    int traceLen = 0;
};

struct OpStat {
    uint64_t steps = 0, allocs = 0, maths = 0, stack = 0, invalids = 0;
    uint64_t undefs = 0; // invalid numbers given by functions which only equations call, not norms
    uint64_t points = 0; // distinct arguments of exp
    uint64_t fired[F_KINDS] = {0, 0};
};

// ---- process set-up
void initProcess();
void addExemptRange(const void *p, size_t n);

// ---- the life of the process: initialisers and destructors of the library's static and thread-local objects
void libraryInit(uint64_t seed, int count);  // run at most count of those not run yet (-1: all), in a seeded order (0: link order)
void libraryLife(bool on);                   // from now on destructors are kept for the simulator to run
void libraryExit();                          // the destructors of the static objects, as at the end of the process
void libraryThreadExit();                    // the destructors of the calling thread's objects

// ---- run set-up (controller, before the threads start)
void configure(const Env &env, const SchedSpec &sched, const FaultSpec *faults, int nfaults, uint64_t budget);
void watch(const void *p, size_t n); // settings object: any change by the library is a violation
void unwatch();
void rewatch();                      // the caller itself changed the settings
void expectSettingsWrite(bool on);
void warmLocale();                   // let the standard library fill its caches for the global locale

// ---- threads
void runThreads(int n, void (*body)(int), const size_t *stackKiB);
void runOnController(void (*body)(int), int id);
int self();

// ---- called by a thread around its operations
void opBegin(int op, bool faultsOn);
OpStat opEnd();
// call sites of the allocations of the operation that ended last: "hash,first,last,count" each
void recordSites(bool on);
std::string sites();
void faults(bool on);                // switch fault injection inside the operation
void junkStack(size_t bytes);

struct Lib { // library code runs: scheduling points, faults, checks are on
    Lib();
    ~Lib();
    int saved;
};
struct Out { // harness code called back from the library, or probing an object
    Out();
    ~Out();
    int saved;
};
struct NoFault { // library code used by the oracle: neither scheduled nor checked nor made to fail
    NoFault();
    ~NoFault();
    int savedLib, savedOut;
    bool savedF;
};

// ---- memory accounting
uint64_t liveBlocks();
uint64_t liveBytes();
bool isArena(const void *p);
void limitSteps(uint64_t n);         // the running operation has at most n more steps
void failAllAllocations(bool on);

// ---- results
void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void emit(const std::string &s);           // append to the result text
void finish() __attribute__((noreturn));   // write the result and end the child
void fatal(const char *what) __attribute__((noreturn));
extern void (*onFatal)();                    // called before a fatal end
void setResultFd(int fd);
void mix(uint64_t v);                      // into the event hash
uint64_t eventHash();
uint64_t totalSteps();
uint64_t totalSwitches();
const char *traceText();
uint64_t traceHash();
void setPhase(const char *p);
uint64_t mathCalls(int which); // 0 sin, 1 exp ... counts in the running operation
uint64_t faultsFired(int kind);

// ---- simulated sinks
class SimBuf : public std::streambuf {
public:
    enum Mode { OK, REFUSE, SHORT, THROW };
    SimBuf() : failAt(~0ull), mode(OK), chunk(0), n(0), cap(0), buf(nullptr), failures(0) {}
    void reset(Mode m, uint64_t at, unsigned c) {
        mode = m;
        failAt = at;
        chunk = c;
        n = 0;
        failures = 0;
    }
    std::string text() const {
        return std::string(buf ? buf : "", n);
    }
    uint64_t count() const {
        return n;
    }
    uint64_t failed() const {
        return failures;
    }

protected:
    std::streamsize xsputn(const char *s, std::streamsize len) override;
    int_type overflow(int_type c) override;
    int sync() override;

private:
    void put(char c);
    bool failing();
    uint64_t failAt;
    Mode mode;
    unsigned chunk;
    uint64_t n, cap;
    char *buf;
    uint64_t failures;
};

struct SimIoError {
    int code;
};

} // namespace rt
