// The workload interpreter. Compiled with access instrumentation, like the library: one operation is one
// public library call. The same file serves the library headers and the single header.
#ifdef SIM_LIBRARY_HEADERS
#include <tomsolver/error_type.h>
#include <tomsolver/linear.h>
#include <tomsolver/vars_table.h>
#endif
#include <tomsolver/tomsolver.h>

#include "rt.h"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <locale>
#include <map>
#include <new>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

using namespace tomsolver;
using rt::Lib;
using rt::NoFault;
using rt::Out;
typedef std::vector<std::string> Words;

extern char **environ;

// ------------------------------------------------------------------ text helpers (independent of the locale)
static std::string dec(long long v) {
    char b[32];
    int n = 31;
    b[n] = 0;
    bool neg = v < 0;
    unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
    do {
        b[--n] = (char)('0' + u % 10);
        u /= 10;
    } while (u);
    if (neg) {
        b[--n] = '-';
    }
    return b + n;
}
static std::string hex64(uint64_t v) {
    char b[17];
    for (int i = 15; i >= 0; --i, v >>= 4) {
        b[i] = "0123456789abcdef"[v & 15];
    }
    b[16] = 0;
    return b;
}
static std::string hexd(double d) {
    uint64_t v;
    memcpy(&v, &d, 8);
    if (d != d) {
        v = 0x7ff8000000000000ull; // sign and payload of NaN carry no meaning
    }
    return hex64(v);
}
static uint64_t unhex(const std::string &s) {
    uint64_t v = 0;
    for (char c : s) {
        v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
    }
    return v;
}
static double unhexd(const std::string &s) {
    uint64_t v = unhex(s);
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static long long num(const std::string &s) {
    long long v = 0;
    size_t i = !s.empty() && s[0] == '-';
    for (; i < s.size(); ++i) {
        v = v * 10 + (s[i] - '0');
    }
    return !s.empty() && s[0] == '-' ? -v : v;
}
static uint64_t unum(const std::string &s) {
    uint64_t v = 0;
    for (char c : s) {
        v = v * 10 + (uint64_t)(c - '0');
    }
    return v;
}
static std::string quote(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c > ' ' && c < 127 && c != '%' && c != '|') {
            r += (char)c;
        } else {
            r += '%';
            r += "0123456789abcdef"[c >> 4];
            r += "0123456789abcdef"[c & 15];
        }
    }
    return r;
}
static std::string unquote(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += (char)unhex(s.substr(i + 1, 2));
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}
static std::vector<std::string> split(const std::string &s, char sep) {
    std::vector<std::string> r;
    if (s.empty()) {
        return r;
    }
    size_t b = 0;
    while (true) {
        size_t e = s.find(sep, b);
        r.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos) {
            return r;
        }
        b = e + 1;
    }
}
static size_t g_shorten = 600;
static std::string shorten(const std::string &s) {
    if (s.size() <= g_shorten) {
        return s;
    }
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return s.substr(0, 60) + "...#" + dec((long long)s.size()) + ":" + hex64(h);
}

// ------------------------------------------------------------------ what a caller holds
struct Slots {
    Node n[24];
    std::unique_ptr<Mat> m[8];
    std::unique_ptr<Vec> v[8];
    std::unique_ptr<SymMat> s[8];
    std::unique_ptr<SymVec> q[8];
    std::unique_ptr<VarsTable> t[8];
};
static Slots g_slots[6]; // four threads, [4]: shared, made before the threads start
constexpr int SHARED = 4;

struct NullOperand {};
struct BadPlan {
    std::string what;
};
struct UserError {
    int code;
};
static void need(bool b) { // an earlier call failed, and what it should have made would be needed here
    if (!b) {
        throw NullOperand();
    }
}
static bool sameShape(const Mat &a, const Mat &b) {
    return a.Rows() == b.Rows() && a.Cols() == b.Cols();
}
static bool inside(long long i, int n) {
    return i >= 0 && i < n;
}

template <class T>
static T &pick(T *arr, int n, const std::string &s, size_t at) {
    int i = (int)num(s.substr(at));
    if (i < 0 || i >= n) {
        throw BadPlan{"slot " + s};
    }
    return arr[i];
}
struct Ctx {
    int prog;
    Slots &of(const std::string &s, char c, size_t &at) {
        at = 0;
        Slots *k = &g_slots[prog];
        if (!s.empty() && s[0] == '@') {
            at = 1;
            k = &g_slots[SHARED];
        }
        if (s.size() <= at || s[at] != c) {
            throw BadPlan{"slot kind " + s};
        }
        ++at;
        return *k;
    }
#define ACCESSOR(NAME, ARR, C, N, TYPE)                                                                                \
    TYPE &NAME##p(const std::string &s) {                                                                             \
        size_t at;                                                                                                    \
        Slots &k = of(s, C, at);                                                                                      \
        return pick(k.ARR, N, s, at);                                                                                 \
    }                                                                                                                 \
    TYPE::element_type &NAME(const std::string &s) {                                                                  \
        TYPE &p = NAME##p(s);                                                                                         \
        if (!p) {                                                                                                     \
            throw NullOperand();                                                                                      \
        }                                                                                                             \
        return *p;                                                                                                    \
    }
    ACCESSOR(N, n, 'n', 24, Node)
    ACCESSOR(M, m, 'm', 8, std::unique_ptr<Mat>)
    ACCESSOR(V, v, 'v', 8, std::unique_ptr<Vec>)
    ACCESSOR(S, s, 's', 8, std::unique_ptr<SymMat>)
    ACCESSOR(Q, q, 'q', 8, std::unique_ptr<SymVec>)
    ACCESSOR(T, t, 't', 8, std::unique_ptr<VarsTable>)
    Node &NN(const std::string &s) { // a slot that holds an expression
        Node &p = Np(s);
        if (!p) {
            throw NullOperand();
        }
        return p;
    }
    // s or q: a symbolic matrix in either kind of slot
    SymMat &SQ(const std::string &s) {
        return s.find('q') != std::string::npos ? (SymMat &)Q(s) : S(s);
    }
    Mat &MV(const std::string &s) {
        return s.find('v') != std::string::npos ? (Mat &)V(s) : M(s);
    }
};

// ------------------------------------------------------------------ library calls
template <class F>
static auto L(F f) -> decltype(f()) {
    Lib l;
    return f();
}
template <class P, class X>
static void store(P &slot, X &&v) { // replacing what the slot held: library code, but not the call under test
    rt::faults(false);
    Lib l;
    slot = std::forward<X>(v);
}
template <class T, class... A>
static std::unique_ptr<T> make(A &&...a) {
    return std::unique_ptr<T>(new T(std::forward<A>(a)...));
}

// ------------------------------------------------------------------ the value of an object, seen through the interface
static double pointOf(const std::string &name, int which) {
    unsigned h = 7;
    for (unsigned char c : name) {
        h = (h * 31 + c) % 1009;
    }
    return which == 0 ? 0.25 + h / 1009.0 : 1.5 + (h * 37 % 1009) / 700.0;
}
static bool g_probe = false;
static std::string probeNode(const Node &n);
static std::string fpNode(const Node &n) {
    if (!n) {
        return "null";
    }
    NoFault nf;
    std::string r = "N:" + shorten(n->ToString());
    if (g_probe) {
        r += probeNode(n);
    }
    return r;
}
static std::string fpMat(const Mat &m) {
    NoFault nf;
    std::string r = "M" + dec(m.Rows()) + "x" + dec(m.Cols()) + ":";
    for (int i = 0; i < m.Rows(); ++i) {
        for (int j = 0; j < m.Cols(); ++j) {
            r += hexd(m.Value(i, j)) + ",";
        }
    }
    return r;
}
static std::string probeNode(const Node &n) { // the value at two points
    std::string r;
    std::set<std::string> vars = n->GetAllVarNames();
    for (int w = 0; w < 2; ++w) {
        r += w ? "," : ";";
        try {
            Node c = Clone(n);
            std::map<std::string, double> vals;
            for (auto &v : vars) {
                vals[v] = pointOf(v, w);
            }
            if (!vals.empty()) {
                c = Subs(std::move(c), vals);
            }
            r += hexd(c->Vpa());
        } catch (const std::exception &) { r += "err"; }
    }
    return r;
}
static std::string fpSym(const SymMat &s) {
    NoFault nf;
    std::string r = "S" + dec(s.Rows()) + "x" + dec(s.Cols()) + ":";
    for (int i = 0; i < s.Rows(); ++i) {
        for (int j = 0; j < s.Cols(); ++j) {
            const Node &n = s.Value(i, j);
            r += (n ? n->ToString() : std::string("null")) + ",";
        }
    }
    r = shorten(r);
    if (g_probe) {
        for (int i = 0; i < s.Rows(); ++i) {
            for (int j = 0; j < s.Cols(); ++j) {
                const Node &n = s.Value(i, j);
                r += n ? probeNode(n) : ";null";
            }
        }
    }
    return r;
}
static std::string fpTab(const VarsTable &t) {
    NoFault nf;
    std::string r = "T" + dec(t.VarNums()) + ":";
    for (auto &p : t) {
        r += p.first + "=" + hexd(p.second) + ",";
    }
    const Vec &v = t.Values();
    r += "/";
    for (size_t i = 0; i < t.Vars().size(); ++i) {
        r += t.Vars()[i] + "=" + hexd(v[i]) + ",";
    }
    return r;
}
static std::string joinSet(const std::set<std::string> &s) {
    std::string r;
    for (auto &x : s) {
        r += x + ",";
    }
    return r;
}
static std::string fpAll(Slots &k) {
    std::string r;
    for (int i = 0; i < 24; ++i) {
        if (k.n[i]) {
            r += "n" + dec(i) + "=" + fpNode(k.n[i]) + "\n";
        }
    }
    for (int i = 0; i < 8; ++i) {
        if (k.m[i]) {
            r += "m" + dec(i) + "=" + fpMat(*k.m[i]) + "\n";
        }
        if (k.v[i]) {
            r += "v" + dec(i) + "=" + fpMat(*k.v[i]) + "\n";
        }
        if (k.s[i]) {
            r += "s" + dec(i) + "=" + fpSym(*k.s[i]) + "\n";
        }
        if (k.q[i]) {
            r += "q" + dec(i) + "=" + fpSym(*k.q[i]) + "\n";
        }
        if (k.t[i]) {
            r += "t" + dec(i) + "=" + fpTab(*k.t[i]) + "\n";
        }
    }
    return r;
}
static void dropAll(Slots &k) {
    for (auto &x : k.n) {
        x.reset();
    }
    for (auto &x : k.m) {
        x.reset();
    }
    for (auto &x : k.v) {
        x.reset();
    }
    for (auto &x : k.s) {
        x.reset();
    }
    for (auto &x : k.q) {
        x.reset();
    }
    for (auto &x : k.t) {
        x.reset();
    }
}

// ------------------------------------------------------------------ settings
static std::string cfgText() {
    Config &c = Config::Get();
    return "inv=" + dec(c.throwOnInvalidValue) + " eps=" + hexd(c.epsilon) + " log=" + dec((int)c.logLevel) +
           " maxit=" + dec(c.maxIterations) + " method=" + dec((int)c.nonlinearMethod) + " init=" + hexd(c.initialValue) +
           " indet=" + dec(c.allowIndeterminateEquation);
}
static void setCfg(const std::string &f, const std::string &v) {
    Config &c = Config::Get();
    if (f == "inv") {
        c.throwOnInvalidValue = v == "1";
    } else if (f == "eps") {
        c.epsilon = unhexd(v);
    } else if (f == "log") {
        c.logLevel = (LogLevel)num(v);
    } else if (f == "maxit") {
        c.maxIterations = (int)num(v);
    } else if (f == "method") {
        c.nonlinearMethod = (NonlinearMethod)num(v);
    } else if (f == "init") {
        c.initialValue = unhexd(v);
    } else if (f == "indet") {
        c.allowIndeterminateEquation = v == "1";
    } else {
        throw BadPlan{"setting " + f};
    }
}

// ------------------------------------------------------------------ process state
struct HostNumpunct : std::numpunct<char> {
    char do_decimal_point() const override {
        return ',';
    }
    char do_thousands_sep() const override {
        return '.';
    }
    std::string do_grouping() const override {
        return "\1";
    }
    std::string do_truename() const override {
        return "wahr";
    }
    std::string do_falsename() const override {
        return "falsch";
    }
};
struct HostCtype : std::ctype<char> { // every letter is a space, and the reverse
    static const mask *table() {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i) {
            t[i] = classic_table()[i];
        }
        t[(unsigned char)'x'] |= space;
        t[(unsigned char)'1'] &= (mask)~digit;
        t[(unsigned char)' '] &= (mask)~space;
        return t;
    }
    HostCtype() : std::ctype<char>(table(), false, 0) {}
    // case is what the C locale says it is not
    static char swap(char c) {
        return c >= 'a' && c <= 'z' ? (char)(c - 32) : c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
    }
    char do_tolower(char c) const override {
        return c == 'I' ? c : c >= '0' && c <= '9' ? '0' : swap(c);
    }
    char do_toupper(char c) const override {
        return c == 'i' ? c : swap(c);
    }
    const char *do_tolower(char *b, const char *e) const override {
        for (; b < e; ++b) {
            *b = do_tolower(*b);
        }
        return e;
    }
    const char *do_toupper(char *b, const char *e) const override {
        for (; b < e; ++b) {
            *b = do_toupper(*b);
        }
        return e;
    }
};

static rt::SimBuf g_coutBuf;
static std::streambuf *g_coutOld = nullptr;

// what is allowed to change: that an output which worked has failed (judged by C11); not that a failure is forgotten
static std::ios_base::iostate g_coutFailed;

static std::string processState(bool after = false) {
    Out out;
    std::string r;
    if (!after) {
        g_coutFailed = std::cout.rdstate();
    }
    r += "coutfailed=" + dec((long)(g_coutFailed & std::cout.rdstate())) + " ";
    r += "clocale=";
    r += setlocale(LC_ALL, nullptr);
    r += " thrlocale=" + hex64((uint64_t)uselocale((locale_t)0));
    {
        std::locale l; // a copy of the global one
        r += " cpplocale=" + l.name() + "/" +
             hex64((uint64_t) & std::use_facet<std::numpunct<char>>(l)) + hex64((uint64_t) & std::use_facet<std::ctype<char>>(l));
    }
    r += " round=" + dec(fegetround()) + " mxcsr=" + hex64(_mm_getcsr() & ~0x3fu);
    unsigned short cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    r += " x87=" + hex64(cw);
    std::ios *ss[] = {&std::cout, &std::cerr, &std::clog, &std::cin};
    for (std::ios *s : ss) {
        r += " ios=" + dec((long)s->flags()) + "," + dec(s->precision()) + "," + dec(s->width()) + "," + dec(s->fill()) +
             "," + dec(s->exceptions()) + "," + hex64((uint64_t)s->rdbuf()) + "," + hex64((uint64_t)s->tie()) + "," +
             s->getloc().name();
        if (s != &std::cout) {
            r += "," + dec(s->rdstate());
        }
    }
    r += " term=" + hex64((uint64_t)std::get_terminate()) + " new=" + hex64((uint64_t)std::get_new_handler());
    for (int s = 1; s < 32; ++s) {
        struct sigaction sa;
        if (sigaction(s, nullptr, &sa) == 0) {
            r += " s" + dec(s) + "=" + hex64((uint64_t)sa.sa_handler) + "," + dec(sa.sa_flags);
        }
    }
    sigset_t set;
    sigprocmask(SIG_SETMASK, nullptr, &set);
    for (int s = 1; s < 64; ++s) {
        r += sigismember(&set, s) ? '1' : '0';
    }
    uint64_t h = 14695981039346656037ull;
    for (char **e = environ; e && *e; ++e) {
        for (const char *c = *e; *c; ++c) {
            h = (h ^ (unsigned char)*c) * 1099511628211ull;
        }
    }
    r += " env=" + hex64(h);
    char cwd[512];
    r += std::string(" cwd=") + (getcwd(cwd, sizeof cwd) ? cwd : "?");
    mode_t um = umask(0);
    umask(um);
    r += " umask=" + dec(um);
    // the random-number sequences, looked at without advancing them
    static char alt[128];
    char *cur = initstate(1, alt, sizeof alt);
    unsigned int peek[33];
    memcpy(peek, cur - 0, 128);
    setstate(cur);
    uint64_t rh = 14695981039346656037ull;
    for (int i = 0; i < 32; ++i) {
        rh = (rh ^ peek[i]) * 1099511628211ull;
    }
    r += " rand=" + hex64(rh);
    unsigned short x[3] = {0, 0, 0};
    unsigned short *old = seed48(x);
    unsigned short keep[3] = {old[0], old[1], old[2]};
    r += " drand=" + dec(keep[0]) + "," + dec(keep[1]) + "," + dec(keep[2]);
    seed48(keep);
    int fds = 0;
    for (int i = 0; i < 64; ++i) {
        fds += fcntl(i, F_GETFD) >= 0;
    }
    r += " fds=" + dec(fds);
    return r;
}

// ------------------------------------------------------------------ operations
struct StreamSetup { // of the private stream `print` writes to
    int mode = 0;
    uint64_t at = 0;
    unsigned chunk = 0;
    int exc = 0;
    long flags = -1;
    int prec = 6, width = 0;
    char fill = ' ';
    bool imbue = false;
    int pre = 0; // state bits set before printing
};
static StreamSetup g_stream[6];
static rt::SimBuf g_printBuf[6];

static std::string runOne(Ctx &c, const Words &w);

template <class X>
static std::string printTo(Ctx &c, const X &x) {
    const StreamSetup &s = g_stream[c.prog];
    rt::SimBuf &buf = g_printBuf[c.prog];
    buf.reset((rt::SimBuf::Mode)s.mode, s.at, s.chunk);
    std::ostream os(&buf);
    if (s.flags >= 0) {
        os.flags((std::ios_base::fmtflags)s.flags);
    }
    os.precision(s.prec);
    os.width(s.width);
    os.fill(s.fill);
    if (s.imbue) {
        os.imbue(std::locale(std::locale::classic(), new HostNumpunct));
    }
    if (s.pre) {
        os.setstate((std::ios_base::iostate)s.pre);
    }
    os.exceptions((std::ios_base::iostate)s.exc & ~(std::ios_base::iostate)s.pre);
    const std::ios_base::fmtflags f0 = os.flags();
    std::string how = "returned";
    try {
        L([&] { os << x; });
    } catch (const std::ios_base::failure &) { how = "ios_failure"; } catch (const rt::SimIoError &) {
        how = "sink_error";
    }
    return how + " state=" + dec(os.rdstate()) + " flags=" + dec((long)(os.flags() == f0)) + " prec=" +
           dec(os.precision() == s.prec) + " fill=" + dec(os.fill() == s.fill) + " width=" + dec(os.width()) + " mask=" +
           dec(os.exceptions() == ((std::ios_base::iostate)s.exc & ~(std::ios_base::iostate)s.pre)) + " failed=" +
           dec((long long)buf.failed()) + " n=" + dec((long long)buf.count()) + " text=" + shorten(buf.text());
}

static Node unary(const std::string &f, const Node &a) {
#define U(NAME, EXPR)                                                                                                  \
    if (f == NAME)                                                                                                    \
        return EXPR;
    U("neg", -a) U("pos", +a) U("sin", sin(a)) U("cos", cos(a)) U("tan", tan(a)) U("asin", asin(a)) U("acos", acos(a));
    U("atan", atan(a)) U("sqrt", sqrt(a)) U("log", log(a)) U("log2", log2(a)) U("log10", log10(a)) U("exp", exp(a));
    throw BadPlan{"function " + f};
#undef U
}
static Node unaryMove(const std::string &f, Node &a) {
#define U(NAME, EXPR)                                                                                                  \
    if (f == NAME)                                                                                                    \
        return EXPR;
#define A std::move(a)
    U("neg", -A) U("pos", +A) U("sin", sin(A)) U("cos", cos(A)) U("tan", tan(A)) U("asin", asin(A)) U("acos", acos(A));
    U("atan", atan(A)) U("sqrt", sqrt(A)) U("log", log(A)) U("log2", log2(A)) U("log10", log10(A)) U("exp", exp(A));
#undef A
#undef U
    throw BadPlan{"function " + f};
}
template <class X, class Y>
static Node binary(char op, X &&x, Y &&y) {
    switch (op) {
    case '+':
        return std::forward<X>(x) + std::forward<Y>(y);
    case '-':
        return std::forward<X>(x) - std::forward<Y>(y);
    case '*':
        return std::forward<X>(x) * std::forward<Y>(y);
    case '/':
        return std::forward<X>(x) / std::forward<Y>(y);
    case '^':
        return std::forward<X>(x) ^ std::forward<Y>(y);
    }
    throw BadPlan{"operator"};
}
template <class Y>
static void assignOp(char op, Node &x, Y &&y) {
    switch (op) {
    case '+':
        x += std::forward<Y>(y);
        return;
    case '-':
        x -= std::forward<Y>(y);
        return;
    case '*':
        x *= std::forward<Y>(y);
        return;
    case '/':
        x /= std::forward<Y>(y);
        return;
    case '^':
        x ^= std::forward<Y>(y);
        return;
    }
    throw BadPlan{"operator"};
}
static std::valarray<double> numbers(const std::string &s) {
    auto w = split(s, ',');
    std::valarray<double> v(w.size());
    for (size_t i = 0; i < w.size(); ++i) {
        v[i] = unhexd(w[i]);
    }
    return v;
}
static std::map<std::string, double> valueMap(const std::string &s) {
    std::map<std::string, double> r;
    for (auto &x : split(s, ',')) {
        size_t e = x.rfind('=');
        r[unquote(x.substr(0, e))] = unhexd(x.substr(e + 1));
    }
    return r;
}
static Words names(const std::string &s) {
    Words r;
    for (auto &x : split(s, ',')) {
        r.push_back(unquote(x));
    }
    return r;
}
static std::string nodeResult(Ctx &c, const std::string &slot, Node &&r) {
    std::string fp = fpNode(r);
    store(c.Np(slot), std::move(r));
    return fp;
}

// the functions a caller hands to the line searches
struct Callback {
    Ctx *c = nullptr;
    int kind = 0;
    int fThrow = 0, dfThrow = 0, whatToThrow = 0;
    int nestAt = 0;
    Words nest;
    int fCalls = 0, dfCalls = 0, after = 0;
    bool thrown = false, didNest = false;
    std::string nested;

    void raise() {
        thrown = true;
        switch (whatToThrow) {
        case 0:
            throw UserError{77};
        case 1:
            throw std::runtime_error("from the callback");
        case 2:
            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX, "from the callback");
        case 3:
            throw 42;
        case 4:
            throw std::bad_alloc();
        case 5:
            throw std::out_of_range("from the callback");
        }
    }
    void enter(int call, int throwAt) {
        if (thrown) {
            ++after;
        }
        if (nestAt && call == nestAt && !nest.empty() && !didNest) {
            didNest = true;
            nested = runOne(*c, nest);
        }
        if (throwAt && call == throwAt) {
            raise();
        }
    }
    Vec f(const Vec &x) {
        Out out;
        enter(++fCalls, fThrow);
        const int n = x.Rows();
        std::valarray<double> r(n);
        for (int i = 0; i < n; ++i) {
            switch (kind) {
            case 0:
                r[i] = x[i] * x[i] - 2.0;
                break;
            case 1:
                r[i] = 3.0 * x[i] - (i + 1);
                break;
            case 2:
                r[i] = x[i] * x[i] * x[i] - 2.0 * x[i] + 2.0;
                break;
            case 3:
                r[i] = NAN;
                break;
            case 4:
                r[i] = 1.0 / x[i];
                break;
            case 5:
                r[i] = fCalls * 1.0 + i;
                break;
            case 6:
                r[i] = (fCalls % 2 ? 1.0 : -1.0) * fCalls;
                break;
            case 7:
                r[i] = HUGE_VAL;
                break;
            case 8:
                r[i] = fCalls > 3 ? NAN : x[i] * x[i] + 1;
                break;
            default:
                r[i] = 1.0;
            }
        }
        return Vec(r);
    }
    Mat df(const Vec &x) {
        Out out;
        enter(++dfCalls, dfThrow);
        const int n = x.Rows();
        std::valarray<double> r(0.0, n * n);
        for (int i = 0; i < n; ++i) {
            r[i * n + i] = kind == 0 ? 2.0 * x[i] : kind == 1 ? 3.0 : kind == 2 ? 3.0 * x[i] * x[i] - 2.0 : kind == 3 ? NAN : 1.0;
        }
        return Mat(n, n, r);
    }
    std::string text() const {
        return " f=" + dec(fCalls) + " df=" + dec(dfCalls) + " after=" + dec(after) +
               (nestAt ? " nested={" + nested + "}" : std::string());
    }
};
static Callback callbackOf(Ctx &c, const Words &w, size_t from) {
    Callback k;
    k.c = &c;
    for (size_t i = from; i < w.size(); ++i) {
        size_t e = w[i].find('=');
        std::string f = w[i].substr(0, e), v = w[i].substr(e + 1);
        if (f == "kind") {
            k.kind = (int)num(v);
        } else if (f == "fthrow") {
            k.fThrow = (int)num(v);
        } else if (f == "dfthrow") {
            k.dfThrow = (int)num(v);
        } else if (f == "what") {
            k.whatToThrow = (int)num(v);
        } else if (f == "nestat") {
            k.nestAt = (int)num(v);
        } else if (f == "nest") {
            k.nest = split(unquote(v), ' ');
        }
    }
    return k;
}
static thread_local std::string *g_note = nullptr; // text to add to the outcome even when the operation fails

// one operation; the text of its value. Library exceptions pass through.
static std::string perform(Ctx &c, const Words &w) {
    const std::string &o = w[0];
    auto S = [&](size_t i) -> const std::string & {
        if (i >= w.size()) {
            throw BadPlan{"arguments of " + o};
        }
        return w[i];
    };
    // ---- expressions
    if (o == "parse") {
        const std::string text = unquote(S(2));
        return nodeResult(c, S(1), L([&] { return Parse(text); }));
    }
    if (o == "parsez") { // through the C-string constructor
        const std::string text = unquote(S(2));
        return nodeResult(c, S(1), L([&] { return Parse(text.c_str()); }));
    }
    if (o == "lit") {
        const std::string text = unquote(S(2));
        return nodeResult(c, S(1), L([&] { return operator""_f(text.c_str(), text.size()); }));
    }
    if (o == "parsev") { // pointer and length, nothing readable behind the text
        const std::string text = unquote(S(2));
        std::unique_ptr<char[]> buf(new char[text.size()]);
        std::copy(text.begin(), text.end(), buf.get());
        return nodeResult(c, S(1), L([&] { return Parse(internal::StringView(buf.get(), text.size())); }));
    }
    if (o == "num") {
        double d = unhexd(S(2));
        return nodeResult(c, S(1), L([&] { return Num(d); }));
    }
    if (o == "var") {
        std::string n = unquote(S(2));
        return nodeResult(c, S(1), L([&] { return Var(n); }));
    }
    if (o == "op") {
        int k = (int)num(S(2));
        Node r = L([&] { return Op((MathOperator)k); });
        store(c.Np(S(1)), Node());
        return "made";
    }
    if (o == "un") {
        Node &a = c.NN(S(3));
        Node r = S(4) == "m" ? L([&] { return unaryMove(S(2), a); }) : L([&] { return unary(S(2), a); });
        return nodeResult(c, S(1), std::move(r));
    }
    if (o == "bin") {
        Node &a = c.NN(S(3)), &b = c.NN(S(4));
        const char op = S(2)[0];
        const std::string &mode = S(5);
        Node r = L([&] {
            return mode == "cc"   ? binary(op, a, b)
                   : mode == "mc" ? binary(op, std::move(a), b)
                   : mode == "cm" ? binary(op, a, std::move(b))
                                  : binary(op, std::move(a), std::move(b));
        });
        return nodeResult(c, S(1), std::move(r));
    }
    if (o == "ass") { // ass OP a b c|m
        Node &a = c.NN(S(2)), &b = c.NN(S(3));
        const char op = S(1)[0];
        if (S(4) == "m") {
            L([&] { assignOp(op, a, std::move(b)); });
        } else {
            L([&] { assignOp(op, a, b); });
        }
        rt::faults(false);
        return fpNode(a);
    }
    if (o == "clone") {
        Node &a = c.NN(S(2));
        return nodeResult(c, S(1), L([&] { return Clone(a); }));
    }
    if (o == "clonerec") {
        Node &a = c.NN(S(2));
        return nodeResult(c, S(1), L([&] { return internal::CloneRecursively(a); }));
    }
    if (o == "move") {
        Node &a = c.NN(S(2));
        Node r = L([&] { return Move(a); });
        std::string src = a ? " source-kept" : "";
        return nodeResult(c, S(1), std::move(r)) + src;
    }
    if (o == "implcopy") {
        Node &a = c.NN(S(2));
        return nodeResult(c, S(1), L([&] { return std::make_unique<internal::NodeImpl>(*a); }));
    }
    if (o == "implmovenew") {
        Node &a = c.NN(S(2));
        Node r = L([&] { return std::make_unique<internal::NodeImpl>(std::move(*a)); });
        store(a, Node());
        return nodeResult(c, S(1), std::move(r));
    }
    if (o == "implassign") {
        Node &d = c.NN(S(1)), &a = c.NN(S(2));
        L([&] { *d = *a; });
        rt::faults(false);
        return fpNode(d);
    }
    if (o == "implmove") {
        Node &d = c.NN(S(1)), &a = c.NN(S(2));
        L([&] { *d = std::move(*a); });
        if (&d != &a) {
            store(a, Node());
        }
        rt::faults(false);
        return fpNode(d);
    }
    if (o == "str") {
        Node &a = c.NN(S(1));
        return "X:" + shorten(L([&] { return a->ToString(); }));
    }
    if (o == "vpa") {
        Node &a = c.NN(S(1));
        return "D:" + hexd(L([&] { return a->Vpa(); }));
    }
    if (o == "calc") {
        Node &a = c.NN(S(1));
        L([&] { a->Calc(); });
        rt::faults(false);
        return fpNode(a);
    }
    if (o == "vars") {
        Node &a = c.NN(S(1));
        return "L:" + shorten(joinSet(L([&] { return a->GetAllVarNames(); })));
    }
    if (o == "eq") {
        Node &a = c.NN(S(1)), &b = c.NN(S(2));
        return "B:" + dec(L([&] { return a->Equal(b); }));
    }
    if (o == "check") {
        Node &a = c.NN(S(1));
        L([&] { a->CheckParent(); });
        return "ok";
    }
    if (o == "print") {
        switch (S(1)[S(1)[0] == '@' ? 1 : 0]) {
        case 'n':
            return printTo(c, c.NN(S(1)));
        case 'm':
            return printTo(c, c.M(S(1)));
        case 'v':
            return printTo(c, (const Mat &)c.V(S(1)));
        case 's':
            return printTo(c, c.S(S(1)));
        case 'q':
            return printTo(c, (const SymMat &)c.Q(S(1)));
        case 't':
            return printTo(c, c.T(S(1)));
        }
    }
    if (o == "diff") { // diff d s VAR n c|m
        Node &a = c.NN(S(2));
        std::string v = unquote(S(3));
        int n = (int)num(S(4));
        Node r = S(5) == "m" ? L([&] { return Diff(std::move(a), v, n); }) : L([&] { return Diff(a, v, n); });
        return nodeResult(c, S(1), std::move(r));
    }
    if (o == "simp") {
        Node &a = c.NN(S(1));
        L([&] { Simplify(a); });
        rt::faults(false);
        return fpNode(a);
    }
    if (o == "subs") { // subs d s c|m KIND ...
        Node &a = c.NN(S(2));
        const bool mv = S(3) == "m";
        const std::string &k = S(4);
        Node r;
        if (k == "one") {
            std::string v = unquote(S(5));
            Node &x = c.NN(S(6));
            r = mv ? L([&] { return Subs(std::move(a), v, x); }) : L([&] { return Subs(a, v, x); });
        } else if (k == "vecs") {
            Words v = names(S(5));
            SymVec &x = c.Q(S(6));
            if (x.Rows() != (int)v.size()) {
                throw NullOperand();
            }
            r = mv ? L([&] { return Subs(std::move(a), v, x); }) : L([&] { return Subs(a, v, x); });
        } else if (k == "dict") {
            std::map<std::string, Node> d;
            for (auto &p : split(S(5), ',')) {
                size_t e = p.rfind('=');
                NoFault nf;
                d[unquote(p.substr(0, e))] = Clone(c.NN(p.substr(e + 1)));
            }
            r = mv ? L([&] { return Subs(std::move(a), d); }) : L([&] { return Subs(a, d); });
        } else if (k == "vals") {
            auto d = valueMap(S(5));
            r = mv ? L([&] { return Subs(std::move(a), d); }) : L([&] { return Subs(a, d); });
        } else if (k == "tab") {
            VarsTable &t = c.T(S(5));
            r = mv ? L([&] { return Subs(std::move(a), t); }) : L([&] { return Subs(a, t); });
        } else {
            throw BadPlan{"subs"};
        }
        return nodeResult(c, S(1), std::move(r));
    }
    if (o == "legal") {
        std::string n = unquote(S(1));
        return "B:" + dec(L([&] { return VarNameIsLegal(n); }));
    }
    if (o == "tostr") {
        double d = unhexd(S(1));
        return "X:" + L([&] { return ToString(d); });
    }
    if (o == "drop") {
        char k = S(1)[0];
        rt::faults(false);
        Lib l;
        k == 'n'   ? c.Np(S(1)).reset()
        : k == 'm' ? c.Mp(S(1)).reset()
        : k == 'v' ? c.Vp(S(1)).reset()
        : k == 's' ? c.Sp(S(1)).reset()
        : k == 'q' ? c.Qp(S(1)).reset()
                   : c.Tp(S(1)).reset();
        return "ok";
    }
    if (o == "dropall") {
        rt::faults(false);
        Lib l;
        dropAll(g_slots[c.prog]);
        return "ok";
    }
    if (o == "parsebig") { // parsebig d KIND N: read a large text
        const std::string &k = S(2);
        long long n = num(S(3));
        std::string t;
        auto rep = [&](const char *s) {
            for (long long i = 0; i < n; ++i) {
                t += s;
            }
        };
        if (k == "paren") {
            rep("(");
            t += "x";
            rep(")");
        } else if (k == "sum") {
            t = "x";
            rep("+2");
        } else if (k == "sub") {
            t = "x";
            rep("-y");
        } else if (k == "prod") {
            t = "x";
            rep("*y");
        } else if (k == "div") {
            t = "x";
            rep("/2");
        } else if (k == "pow") {
            rep("x^");
            t += "1";
        } else if (k == "neg") {
            rep("-");
            t += "x";
        } else if (k == "fun") {
            rep("sin(");
            t += "x";
            rep(")");
        } else if (k == "nest") {
            rep("(x+");
            t += "y";
            rep(")");
        } else if (k == "nestmul") {
            rep("(2-x*");
            t += "y";
            rep(")");
        } else if (k == "const") {
            t = "1";
            rep("+1");
        } else if (k == "name") {
            rep("a");
        } else if (k == "digits") {
            rep("1");
            t = "0." + t;
        } else if (k == "open") { // not well-formed
            rep("(");
        } else if (k == "close") {
            t = "x";
            rep(")");
        } else if (k == "unit") { // PRE MID POST
            const std::string a = unquote(S(4)), b = unquote(S(6));
            rep(a == "_" ? "" : a.c_str());
            t += unquote(S(5));
            rep(b == "_" ? "" : b.c_str());
        } else if (k == "vars") { // many names
            t = "x";
            for (long long i = 0; i < n; ++i) {
                t += "+v" + dec(i);
            }
        } else if (k == "bad") {
            t = "x";
            rep("+x");
            t += "+";
        } else {
            throw BadPlan{"parsebig " + k};
        }
        Node r = L([&] { return Parse(t); });
        store(c.Np(S(1)), std::move(r));
        return "ok";
    }
    if (o == "legalbig") {
        std::string t((size_t)num(S(1)), 'a');
        if (S(2) == "bad") {
            t += '%';
        }
        return "B:" + dec(L([&] { return VarNameIsLegal(t); }));
    }
    if (o == "bigsum" || o == "bigpow" || o == "bigdeep") {
        // large shapes, built through the interface without deep recursion of the harness
        long long n = num(S(2));
        Node r = L([&] {
            Node r = Var("x");
            for (long long i = 0; i < n; ++i) {
                if (o == "bigsum") {
                    r = std::move(r) + Num(1.0 + (double)(i % 7));
                } else if (o == "bigdeep") {
                    r = i % 2 ? sin(std::move(r)) : -std::move(r);
                } else {
                    r = Num(1.0) * std::move(r);
                }
            }
            return r;
        });
        store(c.Np(S(1)), std::move(r));
        return "ok";
    }
    // ---- errors
    if (o == "matherr") {
        int k = (int)num(S(1));
        std::string e = unquote(S(2));
        return "X:" + L([&] {
                   MathError m((ErrorType)k, e);
                   MathError copy(m);
                   return std::string(copy.what()) + "/" + dec((int)copy.GetErrorType());
               });
    }
    if (o == "errinfo") {
        int k = (int)num(S(1));
        return "X:" + L([&] { return GetErrorInfo((ErrorType)k); });
    }
    if (o == "opstr") {
        int k = (int)num(S(1));
        return "X:" + L([&] { return MathOperatorToStr((MathOperator)k); });
    }
    if (o == "rawcalc") {
        int k = (int)num(S(1));
        double a = unhexd(S(2)), b = unhexd(S(3));
        return "D:" + hexd(L([&] { return tomsolver::Calc((MathOperator)k, a, b); }));
    }
    // ---- matrices and vectors
    if (o == "mat") { // mat d R C numbers
        int r = (int)num(S(2)), k = (int)num(S(3));
        auto v = numbers(S(4));
        store(c.Mp(S(1)), L([&] { return make<Mat>(r, k, v); }));
        return fpMat(c.M(S(1)));
    }
    if (o == "matinit") {
        int r = (int)num(S(2)), k = (int)num(S(3));
        double x = unhexd(S(4));
        store(c.Mp(S(1)), L([&] { return make<Mat>(r, k, x); }));
        return fpMat(c.M(S(1)));
    }
    if (o == "vec") {
        auto v = numbers(S(2));
        store(c.Vp(S(1)), L([&] { return make<Vec>(v); }));
        return fpMat(c.V(S(1)));
    }
    if (o == "vecinit") {
        int r = (int)num(S(2));
        double x = unhexd(S(3));
        store(c.Vp(S(1)), L([&] { return make<Vec>(r, x); }));
        return fpMat(c.V(S(1)));
    }
    if (o == "madd" || o == "msub" || o == "meach") {
        need(sameShape(c.MV(S(2)), c.MV(S(3))));
    }
    if (o == "mmul") {
        need(c.MV(S(2)).Cols() == c.MV(S(3)).Rows());
    }
    if (o == "minv" || o == "madj") {
        need(c.MV(S(2)).Cols() == c.MV(S(2)).Rows() && c.MV(S(2)).Rows() > 1);
    }
    if (o == "mdet" || o == "mposdet") {
        need(c.MV(S(1)).Cols() == c.MV(S(1)).Rows());
    }
    if (o == "maddeq" || o == "meq" || o == "mless") {
        need(sameShape(c.MV(S(1)), c.MV(S(2))));
    }
    if (o == "mswaprow" || o == "mswapcol") {
        const int n = o == "mswaprow" ? c.MV(S(1)).Rows() : c.MV(S(1)).Cols();
        need(inside(num(S(2)), n) && inside(num(S(3)), n));
    }
    if (o == "mset") {
        need(inside(num(S(2)), c.MV(S(1)).Rows()) && inside(num(S(3)), c.MV(S(1)).Cols()));
    }
    if (o == "mrow") {
        need(inside(num(S(2)), c.MV(S(1)).Rows()));
    }
    if (o == "mmaxrow") {
        need(inside(num(S(2)), c.MV(S(1)).Rows()) && inside(num(S(3)), c.MV(S(1)).Rows()) &&
             inside(num(S(4)), c.MV(S(1)).Cols()));
    }
    if (o == "vadd" || o == "vsub" || o == "vmul" || o == "vdiv") {
        need(sameShape(c.V(S(2)), c.V(S(3))));
    }
    if (o == "vdot" || o == "vless" || o == "armijo" || o == "findalpha") {
        need(sameShape(c.V(S(1)), c.V(S(2))));
    }
    if (o == "lin") {
        need(c.M(S(2)).Rows() == c.V(S(3)).Rows());
    }
    if (o == "ssub") {
        need(c.SQ(S(2)).Rows() == c.SQ(S(3)).Rows() && c.SQ(S(2)).Cols() == c.SQ(S(3)).Cols());
    }
    if (o == "sget") {
        need(inside(num(S(3)), c.SQ(S(2)).Rows()) && inside(num(S(4)), c.SQ(S(2)).Cols()));
    }
    if (o == "sset") {
        need(inside(num(S(2)), c.SQ(S(1)).Rows()) && inside(num(S(3)), c.SQ(S(1)).Cols()));
    }
#define MATOP(NAME, EXPR)                                                                                              \
    if (o == NAME) {                                                                                                  \
        Mat &a = c.MV(S(2));                                                                                          \
        (void)a;                                                                                                      \
        auto r = L([&] { return make<Mat>(EXPR); });                                                                  \
        std::string fp = fpMat(*r);                                                                                   \
        store(c.Mp(S(1)), std::move(r));                                                                              \
        return fp;                                                                                                    \
    }
    MATOP("mcopy", a)
    MATOP("madd", a + c.MV(S(3)))
    MATOP("msub", a - c.MV(S(3)))
    MATOP("mmul", a * c.MV(S(3)))
    MATOP("mscale", a * unhexd(S(3)))
    MATOP("mscalel", unhexd(S(3)) * a)
    MATOP("mneg", -a)
    MATOP("mtrans", a.Transpose())
    MATOP("minv", a.Inverse())
    MATOP("meach", EachDivide(a, c.MV(S(3))))
    if (o == "madj") {
        Mat &a = c.M(S(2));
        auto r = L([&] {
            auto r = make<Mat>(a.Rows(), a.Cols());
            Adjoint(a, *r);
            return r;
        });
        std::string fp = fpMat(*r);
        store(c.Mp(S(1)), std::move(r));
        return fp;
    }
    if (o == "mmove") {
        Mat &a = c.M(S(2));
        auto r = L([&] { return make<Mat>(std::move(a)); });
        std::string fp = fpMat(*r);
        store(c.Mp(S(2)), std::unique_ptr<Mat>());
        store(c.Mp(S(1)), std::move(r));
        return fp;
    }
    if (o == "massign") {
        Mat &d = c.M(S(1)), &a = c.M(S(2));
        L([&] { d = a; });
        return fpMat(d);
    }
    if (o == "vassign") {
        Vec &d = c.V(S(1)), &a = c.V(S(2));
        L([&] { d = a; });
        return fpMat(d);
    }
    if (o == "mmassign" || o == "vmassign") { // the source ends there
        const bool m = o[0] == 'm';
        need(S(1) != S(2));
        if (m) {
            Mat &d = c.M(S(1)), &a = c.M(S(2));
            L([&] { d = std::move(a); });
            store(c.Mp(S(2)), std::unique_ptr<Mat>());
            return fpMat(d);
        }
        Vec &d = c.V(S(1)), &a = c.V(S(2));
        L([&] { d = std::move(a); });
        store(c.Vp(S(2)), std::unique_ptr<Vec>());
        return fpMat(d);
    }
    if (o == "mrowset" || o == "mcolset") { // writing through the view of a row or column
        Mat &a = c.MV(S(1));
        const Mat &b = c.MV(S(3));
        const int i = (int)num(S(2)), j = (int)num(S(4));
        const bool row = o == "mrowset";
        need(row ? a.Cols() == b.Cols() && inside(i, a.Rows()) && inside(j, b.Rows())
                 : a.Rows() == b.Rows() && inside(i, a.Cols()) && inside(j, b.Cols()));
        L([&] {
            const std::valarray<double> v = row ? std::valarray<double>(b.Row(j)) : std::valarray<double>(b.Col(j));
            if (row) {
                a.Row(i) = v;
            } else {
                a.Col(i) = v;
            }
        });
        return fpMat(a);
    }
    if (o == "maddeq") {
        Mat &d = c.M(S(1)), &a = c.M(S(2));
        L([&] { d += a; });
        return fpMat(d);
    }
    if (o == "mdet") {
        Mat &a = c.M(S(1));
        return "D:" + hexd(L([&] { return Det(a, a.Rows()); }));
    }
    if (o == "mswaprow" || o == "mswapcol") {
        Mat &a = c.MV(S(1));
        int i = (int)num(S(2)), j = (int)num(S(3));
        L([&] { o == "mswaprow" ? a.SwapRow(i, j) : a.SwapCol(i, j); });
        return fpMat(a);
    }
    if (o == "mresize") {
        Mat &a = c.M(S(1));
        int i = (int)num(S(2)), j = (int)num(S(3));
        L([&] { a.Resize(i, j); });
        return fpMat(a);
    }
    if (o == "vresize") {
        Vec &a = c.V(S(1));
        int i = (int)num(S(2));
        L([&] { a.Resize(i); });
        return fpMat(a);
    }
    if (o == "mset") {
        Mat &a = c.MV(S(1));
        int i = (int)num(S(2)), j = (int)num(S(3));
        double x = unhexd(S(4));
        L([&] { a.Value(i, j) = x; });
        return fpMat(a);
    }
    if (o == "mfill") {
        Mat &a = c.MV(S(1));
        double x = unhexd(S(2));
        L([&] { x == 0 ? (void)a.Zero() : x == 1 ? (void)a.Ones() : a.SetValue(x); });
        return fpMat(a);
    }
    if (o == "mrow") {
        const Mat &a = c.MV(S(1));
        int i = (int)num(S(2));
        double s = L([&] {
            std::valarray<double> r = a.Row(i);
            std::valarray<double> k = a.Col(0);
            return r.sum() + k.sum();
        });
        return "D:" + hexd(s);
    }
    if (o == "mstr") {
        Mat &a = c.MV(S(1));
        return "X:" + shorten(L([&] { return a.ToString(); }));
    }
    if (o == "mnorms") {
        Mat &a = c.MV(S(1));
        std::string r;
        auto add = [&](double d) { r += hexd(d) + ","; };
        add(L([&] { return a.Norm2(); }));
        add(L([&] { return a.NormInfinity(); }));
        add(L([&] { return a.NormNegInfinity(); }));
        add(L([&] { return a.Min(); }));
        add(L([&] { return IsZero(a); }));
        add(L([&] { return a == 0.0; }));
        return "D:" + r;
    }
    if (o == "mposdet") {
        Mat &a = c.M(S(1));
        return "B:" + dec(L([&] { return a.PositiveDetermine(); }));
    }
    if (o == "meq") {
        Mat &a = c.MV(S(1)), &b = c.MV(S(2));
        return "B:" + dec(L([&] { return a == b; }));
    }
    if (o == "mless") {
        Mat &a = c.MV(S(1)), &b = c.MV(S(2));
        return "B:" + dec(L([&] { return AllIsLessThan(a, b); }));
    }
    if (o == "mmaxrow") {
        Mat &a = c.MV(S(1));
        int r0 = (int)num(S(2)), r1 = (int)num(S(3)), k = (int)num(S(4));
        return "I:" + dec(L([&] { return GetMaxAbsRowIndex(a, r0, r1, k); }));
    }
    if (o == "mtovec") {
        Mat &a = c.M(S(2));
        auto r = L([&] { return make<Vec>(a.ToVec()); });
        std::string fp = fpMat(*r);
        store(c.Vp(S(1)), std::move(r));
        return fp;
    }
#define VECOP(NAME, EXPR)                                                                                              \
    if (o == NAME) {                                                                                                  \
        Vec &a = c.V(S(2));                                                                                           \
        auto r = L([&] { return make<Vec>(EXPR); });                                                                  \
        std::string fp = fpMat(*r);                                                                                   \
        store(c.Vp(S(1)), std::move(r));                                                                              \
        return fp;                                                                                                    \
    }
    VECOP("vcopy", a)
    VECOP("vadd", a + c.V(S(3)))
    VECOP("vsub", a - c.V(S(3)))
    VECOP("vmul", a * c.V(S(3)))
    VECOP("vdiv", a / c.V(S(3)))
    VECOP("vscale", a * unhexd(S(3)))
    VECOP("vscalel", unhexd(S(3)) * a)
    VECOP("vneg", -a)
    if (o == "vdot") {
        Vec &a = c.V(S(1)), &b = c.V(S(2));
        return "D:" + hexd(L([&] { return Dot(a, b); }));
    }
    if (o == "vless") {
        Vec &a = c.V(S(1)), &b = c.V(S(2));
        return "B:" + dec(L([&] { return a < b; }));
    }
    if (o == "lin") { // lin vD mA vB
        Mat &a = c.M(S(2));
        Vec &b = c.V(S(3));
        auto r = L([&] { return make<Vec>(SolveLinear(a, b)); });
        std::string fp = fpMat(*r);
        store(c.Vp(S(1)), std::move(r));
        return fp;
    }
    // ---- symbolic matrices
    if (o == "sym") { // sym d R C n,n,...
        int r = (int)num(S(2)), k = (int)num(S(3));
        auto w2 = split(S(4), ',');
        std::vector<Node> el;
        for (auto &x : w2) {
            NoFault nf;
            el.push_back(Clone(c.NN(x)));
        }
        store(c.Sp(S(1)), L([&] {
                  auto s = make<SymMat>(r, k);
                  for (int i = 0; i < r; ++i) {
                      for (int j = 0; j < k; ++j) {
                          s->Value(i, j) = std::move(el[i * k + j]);
                      }
                  }
                  return s;
              }));
        return fpSym(c.S(S(1)));
    }
    if (o == "symlist") { // from initialiser lists, which copy
        Node &a = c.NN(S(2)), &b = c.NN(S(3));
        store(c.Sp(S(1)), L([&] {
                  return std::unique_ptr<SymMat>(new SymMat({{Clone(a), Clone(b)}, {Clone(b), Clone(a)}}));
              }));
        return fpSym(c.S(S(1)));
    }
    if (o == "symfrommat") {
        Mat &a = c.MV(S(2));
        store(c.Sp(S(1)), L([&] { return make<SymMat>(a); }));
        return fpSym(c.S(S(1)));
    }
    if (o == "symvec") {
        auto w2 = split(S(2), ',');
        std::vector<Node> el;
        for (auto &x : w2) {
            NoFault nf;
            el.push_back(Clone(c.NN(x)));
        }
        store(c.Qp(S(1)), L([&] {
                  auto q = make<SymVec>((int)el.size());
                  for (size_t i = 0; i < el.size(); ++i) {
                      (*q)[i] = std::move(el[i]);
                  }
                  return q;
              }));
        return fpSym(c.Q(S(1)));
    }
    if (o == "symvec2") { // from an initialiser list
        Node &a = c.NN(S(2)), &b = c.NN(S(3));
        store(c.Qp(S(1)), L([&] { return std::unique_ptr<SymVec>(new SymVec({Clone(a), Clone(b)})); }));
        return fpSym(c.Q(S(1)));
    }
#define SYMOP(NAME, EXPR)                                                                                              \
    if (o == NAME) {                                                                                                  \
        SymMat &a = c.SQ(S(2));                                                                                       \
        auto r = L([&] { return make<SymMat>(EXPR); });                                                               \
        std::string fp = fpSym(*r);                                                                                   \
        store(c.Sp(S(1)), std::move(r));                                                                              \
        return fp;                                                                                                    \
    }
    SYMOP("sclone", a.Clone())
    SYMOP("ssub", a - c.SQ(S(3)))
    SYMOP("smul", a * c.SQ(S(3)))
    if (o == "jac") {
        SymMat &a = c.SQ(S(2));
        Words v = names(S(3));
        auto r = L([&] { return make<SymMat>(Jacobian(a, v)); });
        std::string fp = fpSym(*r);
        store(c.Sp(S(1)), std::move(r));
        return fp;
    }
    if (o == "scalc") {
        SymMat &a = c.SQ(S(1));
        L([&] { a.Calc(); });
        rt::faults(false);
        return fpSym(a);
    }
    if (o == "smassign" || o == "qmassign" || o == "smove") { // the source ends there
        need(S(1) != S(2));
        if (o == "smove") {
            SymMat &a = c.S(S(2));
            auto r = L([&] { return make<SymMat>(std::move(a)); });
            store(c.Sp(S(2)), std::unique_ptr<SymMat>());
            store(c.Sp(S(1)), std::move(r));
            return fpSym(c.S(S(1)));
        }
        if (o[0] == 's') {
            SymMat &d = c.S(S(1)), &a = c.S(S(2));
            L([&] { d = std::move(a); });
            store(c.Sp(S(2)), std::unique_ptr<SymMat>());
            return fpSym(d);
        }
        SymVec &d = c.Q(S(1)), &a = c.Q(S(2));
        L([&] { d = std::move(a); });
        store(c.Qp(S(2)), std::unique_ptr<SymVec>());
        return fpSym(d);
    }
    if (o == "ssubs") { // ssubs s vals|tab X
        SymMat &a = c.SQ(S(1));
        if (S(2) == "vals") {
            auto d = valueMap(S(3));
            L([&] { a.Subs(d); });
        } else {
            VarsTable &t = c.T(S(3));
            L([&] { a.Subs(t); });
        }
        rt::faults(false);
        return fpSym(a);
    }
    if (o == "svars") {
        SymMat &a = c.SQ(S(1));
        return "L:" + joinSet(L([&] { return a.GetAllVarNames(); }));
    }
    if (o == "seq") {
        SymMat &a = c.SQ(S(1)), &b = c.SQ(S(2));
        return "B:" + dec(L([&] { return a == b; }));
    }
    if (o == "sstr") {
        SymMat &a = c.SQ(S(1));
        return "X:" + shorten(L([&] { return a.ToString(); }));
    }
    if (o == "stomat") {
        SymMat &a = c.SQ(S(2));
        auto r = L([&] { return make<Mat>(a.ToMat()); });
        std::string fp = fpMat(*r);
        store(c.Mp(S(1)), std::move(r));
        return fp;
    }
    if (o == "stovec") {
        SymMat &a = c.S(S(2));
        auto r = L([&] { return make<SymVec>(a.ToSymVec()); });
        std::string fp = fpSym(*r);
        store(c.Qp(S(1)), std::move(r));
        return fp;
    }
    if (o == "stovec1") {
        SymMat &a = c.S(S(2));
        auto r = L([&] { return make<SymVec>(a.ToSymVecOneByOne()); });
        std::string fp = fpSym(*r);
        store(c.Qp(S(1)), std::move(r));
        return fp;
    }
    if (o == "sget") { // sget n s i j: a copy of an element
        SymMat &a = c.SQ(S(2));
        int i = (int)num(S(3)), j = (int)num(S(4));
        return nodeResult(c, S(1), L([&] { return Clone(((const SymMat &)a).Value(i, j)); }));
    }
    if (o == "sset") { // sset s i j n
        SymMat &a = c.SQ(S(1));
        Node &x = c.NN(S(4));
        int i = (int)num(S(2)), j = (int)num(S(3));
        L([&] { a.Value(i, j) = Clone(x); });
        rt::faults(false);
        return fpSym(a);
    }
    // ---- variable tables
    if (o == "tab") {
        auto d = valueMap(S(2));
        store(c.Tp(S(1)), L([&] { return make<VarsTable>(d); }));
        return fpTab(c.T(S(1)));
    }
    if (o == "tabinit") {
        Words v = names(S(2));
        double x = unhexd(S(3));
        store(c.Tp(S(1)), L([&] { return make<VarsTable>(v, x); }));
        return fpTab(c.T(S(1)));
    }
    if (o == "tablist") {
        std::string a = unquote(S(2)), b = unquote(S(3));
        double x = unhexd(S(4)), y = unhexd(S(5));
        store(c.Tp(S(1)), L([&] { return std::unique_ptr<VarsTable>(new VarsTable{{a, x}, {b, y}}); }));
        return fpTab(c.T(S(1)));
    }
    if (o == "tabset") {
        VarsTable &t = c.T(S(1));
        Vec &v = c.V(S(2));
        if (v.Rows() != t.VarNums()) {
            throw NullOperand();
        }
        L([&] { t.SetValues(v); });
        rt::faults(false);
        return fpTab(t);
    }
    if (o == "thas") {
        VarsTable &t = c.T(S(1));
        std::string n = unquote(S(2));
        return "B:" + dec(L([&] { return t.Has(n); }));
    }
    if (o == "tget") {
        VarsTable &t = c.T(S(1));
        std::string n = unquote(S(2));
        return "D:" + hexd(L([&] { return ((const VarsTable &)t)[n]; }));
    }
    if (o == "tstr") {
        VarsTable &t = c.T(S(1));
        return "X:" + L([&] { return t.ToString(); });
    }
    if (o == "teq") {
        VarsTable &a = c.T(S(1)), &b = c.T(S(2));
        return "B:" + dec(L([&] { return a == b; }));
    }
    if (o == "tcopy") {
        VarsTable &a = c.T(S(2));
        auto r = L([&] { return make<VarsTable>(a); });
        std::string fp = fpTab(*r);
        store(c.Tp(S(1)), std::move(r));
        return fp;
    }
    if (o == "tassign") {
        VarsTable &d = c.T(S(1)), &a = c.T(S(2));
        L([&] { d = a; });
        return fpTab(d);
    }
    if (o == "tmove" || o == "tmassign") { // the source ends there
        need(S(1) != S(2));
        VarsTable &a = c.T(S(2));
        if (o == "tmassign") {
            VarsTable &d = c.T(S(1));
            L([&] { d = std::move(a); });
            store(c.Tp(S(2)), std::unique_ptr<VarsTable>());
            return fpTab(d);
        }
        auto r = L([&] { return make<VarsTable>(std::move(a)); });
        store(c.Tp(S(2)), std::unique_ptr<VarsTable>());
        std::string fp = fpTab(*r);
        store(c.Tp(S(1)), std::move(r));
        return fp;
    }
    if (o == "tviews" || o == "tmoved") { // every view of a table, or of a table that was moved from
        const bool moved = o == "tmoved";
        VarsTable &t = c.T(S(1));
        std::unique_ptr<VarsTable> away;
        if (moved) {
            away = L([&] { return make<VarsTable>(std::move(t)); });
        }
        struct Back {
            VarsTable &t;
            std::unique_ptr<VarsTable> &away;
            ~Back() {
                if (away) {
                    t = std::move(*away);
                }
            }
        } back{t, away};
        const VarsTable &a = t;
        std::string r = "W:n=" + dec(L([&] { return a.VarNums(); })) + " vars=";
        const Words v = L([&] { return a.Vars(); });
        for (auto &x : v) {
            r += quote(x) + ",";
        }
        r += " values=";
        const Vec &w = L([&]() -> const Vec & { return a.Values(); });
        r += fpMat(w) + " iter=";
        for (auto it = L([&] { return a.begin(); }); it != a.end(); ++it) {
            r += quote(it->first) + "=" + hexd(it->second) + ",";
        }
        r += " citer=";
        for (auto it = L([&] { return a.cbegin(); }); it != a.cend(); ++it) {
            r += quote(it->first) + "=" + hexd(it->second) + ",";
        }
        r += " has=";
        for (auto &x : v) {
            r += dec(L([&] { return a.Has(x); }));
        }
        r += " get=";
        for (auto &x : v) {
            r += hexd(L([&] { return a[x]; })) + ",";
        }
        r += " text=" + quote(L([&] { return a.ToString(); })) + " out=";
        std::ostringstream out;
        L([&] { out << a; });
        if (!out) { // reported through the state of the stream
            throw std::bad_alloc(); // nothing else can fail here
        }
        r += quote(out.str()) + " same=";
        r += moved ? "1" : dec(L([&] { return VarsTable(a) == a; }));
        return r;
    }
    if (o == "titer") {
        VarsTable &a = c.T(S(1));
        std::string r = "L:";
        double s = L([&] {
            double s = 0;
            for (auto &p : a) {
                s += p.second * (double)p.first.size();
            }
            return s + a.VarNums();
        });
        return r + hexd(s);
    }
    // ---- solving
    if (o == "solve") { // solve tD nr|lm|cfg q t
        SymVec &q = c.Q(S(3));
        VarsTable &t = c.T(S(4));
        const std::string &k = S(2);
        auto r = L([&] {
            return make<VarsTable>(k == "nr"   ? SolveByNewtonRaphson(q, t)
                                   : k == "lm" ? SolveByLM(q, t)
                                               : Solve(q, t));
        });
        std::string fp = fpTab(*r);
        store(c.Tp(S(1)), std::move(r));
        return fp;
    }
    if (o == "solve1") {
        SymVec &q = c.Q(S(2));
        auto r = L([&] { return make<VarsTable>(Solve(q)); });
        std::string fp = fpTab(*r);
        store(c.Tp(S(1)), std::move(r));
        return fp;
    }
    if (o == "armijo" || o == "findalpha") { // armijo vX vD kind=.. ; findalpha vX vD uncert kind=..
        Vec &x = c.V(S(1)), &d = c.V(S(2));
        const bool ar = o == "armijo";
        double unc = ar ? 0 : unhexd(S(3));
        Callback k = callbackOf(c, w, ar ? 3 : 4);
        struct Note {
            Callback &k;
            ~Note() {
                if (g_note) {
                    *g_note += k.text();
                }
            }
        } note{k};
        std::function<Vec(Vec)> f = [&k](Vec v) { return k.f(v); };
        std::function<Mat(Vec)> df = [&k](Vec v) { return k.df(v); };
        double a = ar ? L([&] { return Armijo(x, d, f, df); }) : L([&] { return FindAlpha(x, d, f, unc); });
        return "D:" + hexd(a);
    }
    // ---- settings
    if (o == "setcfg") {
        rt::expectSettingsWrite(true);
        setCfg(S(1), S(2));
        rt::rewatch();
        return "ok";
    }
    if (o == "resetcfg") {
        L([&] {
            rt::expectSettingsWrite(true);
            Config::Get().Reset();
            rt::rewatch();
        });
        return cfgText();
    }
    if (o == "getcfg") {
        return "G:" + L([&] { return cfgText(); });
    }
    // ---- the host
    if (o == "setloc") { // setloc c NAME | u NAME | g NAME | f KIND
        Out out;
        const std::string &k = S(1);
        std::string n = unquote(S(2));
        if (k == "c") {
            return setlocale(LC_ALL, n.c_str()) ? "ok" : "no-locale";
        }
        if (k == "n") {
            return setlocale(LC_NUMERIC, n.c_str()) ? "ok" : "no-locale";
        }
        if (k == "t") {
            return setlocale(LC_CTYPE, n.c_str()) ? "ok" : "no-locale";
        }
        if (k == "u") {
            if (n == "global") {
                uselocale(LC_GLOBAL_LOCALE);
                return "ok";
            }
            locale_t l = newlocale(LC_ALL_MASK, n.c_str(), (locale_t)0);
            if (!l) {
                return "no-locale";
            }
            uselocale(l);
            return "ok";
        }
        if (k == "g") {
            try {
                std::locale::global(std::locale(n.c_str()));
            } catch (const std::runtime_error &) { return "no-locale"; }
        } else {
            std::locale base = std::locale::classic();
            if (n == "punct" || n == "both") {
                base = std::locale(base, new HostNumpunct);
            }
            if (n == "ctype" || n == "both") {
                base = std::locale(base, new HostCtype);
            }
            std::locale::global(base);
        }
        rt::warmLocale();
        return "ok";
    }
    if (o == "stream") { // mode at chunk exc flags prec width fill imbue pre
        StreamSetup &s = g_stream[c.prog];
        s.mode = (int)num(S(1));
        s.at = unum(S(2));
        s.chunk = (unsigned)num(S(3));
        s.exc = (int)num(S(4));
        s.flags = (long)num(S(5));
        s.prec = (int)num(S(6));
        s.width = (int)num(S(7));
        s.fill = unquote(S(8))[0];
        s.imbue = S(9) == "1";
        s.pre = (int)num(S(10));
        return "ok";
    }
    if (o == "cout") { // cout mode at chunk exc
        Out out;
        g_coutBuf.reset((rt::SimBuf::Mode)num(S(1)), unum(S(2)), (unsigned)num(S(3)));
        std::cout.exceptions(std::ios_base::goodbit);
        std::cout.clear();
        std::cout.exceptions((std::ios_base::iostate)num(S(4)));
        return "ok";
    }
    if (o == "coutfmt") {
        std::cout.flags((std::ios_base::fmtflags)num(S(1)));
        std::cout.precision(num(S(2)));
        return "ok";
    }
    if (o == "couttext") {
        return "X:" + dec((long long)g_coutBuf.count()) + ":" + g_coutBuf.text().substr(0, 60000);
    }
    if (o == "errno") {
        errno = (int)num(S(1));
        return "ok";
    }
    if (o == "fpflags") {
        feraiseexcept(FE_ALL_EXCEPT);
        return "ok";
    }
    if (o == "host") { // something the host has set up for itself
        const std::string k = S(1);
        if (k == "new") {
            std::set_new_handler([] { throw std::bad_alloc(); });
        } else if (k == "term") {
            std::set_terminate([] { abort(); });
        } else if (k == "sig") {
            signal(SIGINT, SIG_IGN);
            signal(SIGPIPE, SIG_IGN);
            signal(SIGUSR1, [](int) {});
        } else if (k == "mask") {
            sigset_t m;
            sigemptyset(&m);
            sigaddset(&m, SIGTERM);
            sigaddset(&m, SIGALRM);
            sigprocmask(SIG_BLOCK, &m, nullptr);
        } else if (k == "umask") {
            umask(027);
        } else if (k == "down") {
            fesetround(FE_DOWNWARD);
        } else if (k == "zero") {
            fesetround(FE_TOWARDZERO);
        } else if (k == "daz") {
            _mm_setcsr(_mm_getcsr() | 0x8040);
        } else if (k == "env") {
            setenv("LC_ALL", "de_DE.UTF-8", 1);
            setenv("COLUMNS", "3", 1);
        } else if (k == "fill") {
            std::cout.fill('*');
            std::cerr.fill('#');
            std::cerr.precision(3);
            std::cerr.setf(std::ios::hex, std::ios::basefield);
        } else if (k == "badout") { // an earlier output of the host's failed
            std::cout.exceptions(std::ios_base::goodbit);
            std::cout.setstate(std::ios_base::failbit | std::ios_base::badbit);
        } else if (k == "eof") {
            std::cin.setstate(std::ios_base::eofbit);
            std::cerr.setstate(std::ios_base::failbit);
        } else if (k == "tie") {
            std::cin.tie(nullptr);
            std::cerr.tie(nullptr);
        } else if (k == "unit") {
            std::cout.setf(std::ios::unitbuf);
            std::cerr.unsetf(std::ios::unitbuf);
        }
        return "ok";
    }
    if (o == "life") { // life init SEED COUNT | exit | tls | none: what happens to the library's static objects
        if (S(1) == "init") {
            rt::libraryInit(unum(S(2)), (int)num(S(3)));
        } else if (S(1) == "exit") {
            rt::libraryExit();
        } else if (S(1) == "tls") {
            rt::libraryThreadExit();
        }
        return "";
    }
    if (o == "srand") {
        srand((unsigned)num(S(1)));
        srand48(num(S(1)));
        return "ok";
    }
    if (o == "fpall") {
        return fpAll(g_slots[c.prog]);
    }
    throw BadPlan{"operation " + o};
}

static std::string demangle(const char *n) {
    int st = 0;
    char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n;
    free(d);
    return r;
}

// the outcome of one operation: status and text
static std::string runOne(Ctx &c, const Words &w) {
    std::string note;
    std::string *savedNote = g_note;
    g_note = &note;
    std::string r;
    try {
        r = "ok " + perform(c, w);
    } catch (const NullOperand &) {
        r = "null";
    } catch (const BadPlan &e) {
        r = "badplan " + e.what;
    } catch (const UserError &e) {
        r = "user " + dec(e.code);
    } catch (int e) {
        r = "int " + dec(e);
    } catch (const rt::SimIoError &e) {
        r = "simio " + dec(e.code);
    } catch (const MathError &e) {
        std::string t = dec((int)e.GetErrorType());
        r = "math " + t + " " + e.what();
    } catch (const MultiParseError &e) {
        r = std::string("parse M ") + shorten(e.what());
    } catch (const SingleParseError &e) {
        r = std::string("parse ") + dec(e.GetLine()) + "," + dec(e.GetPos()) + " " + shorten(e.what());
    } catch (const ParseError &e) {
        r = std::string("parse ? ") + shorten(e.what());
    } catch (const std::bad_alloc &) {
        r = "bad_alloc";
    } catch (const std::ios_base::failure &) {
        r = "ios_failure";
    } catch (const std::exception &e) {
        r = "std " + demangle(typeid(e).name()) + " " + shorten(e.what());
    } catch (...) {
        r = "unknown";
    }
    g_note = savedNote;
    return r + note;
}

// ------------------------------------------------------------------ plans
struct Plan {
    rt::Env env;
    rt::SchedSpec sched;
    std::vector<rt::Switch> trace;
    std::vector<rt::FaultSpec> faults;
    uint64_t budget = 0;
    int threads = 1;
    bool main = false;
    size_t stackKiB[rt::MAXT] = {0};
    int repeat = 1;
    bool snap = false, fpEach = false, dropFail = false, warm = false, watchCfg = false, late = false, life = false, each = false, sites = false, vary = false;
    size_t junk = 0;
    std::vector<Words> prog[6]; // 0..3 threads, 4: before (shared slots), 5: after
};
static Plan g_plan;
static bool g_quiet = false;
static bool g_solo = false;

static void runProgram(int prog, int rep, int slotsOf) {
    Ctx c{slotsOf};
    int i = 0;
    for (const Words &planned : g_plan.prog[prog]) {
        const int op = i++;
        Words varied;
        if (g_plan.vary && prog < 4) { // every repetition has other arguments
            varied = planned;
            for (std::string &s : varied) {
                std::replace(s.begin(), s.end(), '~', (char)('0' + rep % 10));
            }
        }
        const Words &w = varied.empty() ? planned : varied;
        std::string before;
        const bool snapThis = g_plan.snap && g_solo && w[0] != "setloc" && w[0] != "coutfmt" && w[0] != "cout" &&
                              w[0] != "srand" && w[0] != "errno" && w[0] != "fpflags" && w[0] != "host";
        if (snapThis) {
            before = processState();
        }
        const uint64_t cout0 = g_coutBuf.count();
        if (g_plan.junk) {
            rt::junkStack(g_plan.junk);
        }
        rt::opBegin(op, prog < 4);
        std::string r = runOne(c, w);
        rt::OpStat st = rt::opEnd();
        Out out;
        if (!g_quiet) {
            rt::emit("O " + dec(prog) + " " + dec(op) + " " + dec(rep) + " " + dec((long long)st.steps) + " " +
                     dec((long long)st.allocs) + " " + dec((long long)st.maths) + " " + dec((long long)st.stack) + " " +
                     dec((long long)st.fired[0]) + " " + dec((long long)st.fired[1]) + " " +
                     dec((long long)(g_coutBuf.count() - cout0)) + " " + dec((long long)st.invalids) + " " + dec((long long)st.points) + " " + dec((long long)st.undefs) + " | " + quote(r) + "\n");
            if (g_plan.sites) {
                rt::emit("Y " + dec(prog) + " " + dec(op) + " " + dec(rep) + rt::sites() + "\n");
            }
        }
        if (snapThis) {
            std::string after = processState(true);
            if (after != before) {
                size_t k = 0;
                while (k < before.size() && k < after.size() && before[k] == after[k]) {
                    ++k;
                }
                size_t b = before.rfind(' ', k);
                b = b == std::string::npos ? 0 : b + 1;
                rt::violation("state", "%s", quote(before.substr(b, 60) + " -> " + after.substr(b, 60)).c_str());
            }
        }
        if (g_plan.fpEach && !g_quiet) {
            g_probe = true;
            std::string f = fpAll(g_slots[slotsOf]);
            if (g_plan.each) {
                NoFault nf; // the object must be well-formed
                for (auto &n : g_slots[slotsOf].n) {
                    try {
                        if (n) {
                            n->CheckParent();
                        }
                    } catch (const std::exception &e) {
                        rt::violation("malformed", "%s", quote(e.what()).c_str());
                    }
                }
            }
            g_probe = false;
            rt::emit("S " + dec(prog) + " " + dec(op) + " | " + quote(f) + "\n");
        }
    }
}

static void threadBody(int id) {
    runProgram(id, 0, id);
    // the thread's own objects die with it, as locals would
    if (g_plan.dropFail) {
        return;
    }
    rt::opBegin(100000, false);
    {
        Lib l;
        dropAll(g_slots[id]);
    }
    rt::opEnd();
}
static void mainBody(int id) {
    for (int rep = 0; rep < g_plan.repeat; ++rep) {
        runProgram(id, rep, id);
        rt::opBegin(100000, false);
        if (g_plan.dropFail) {
            rt::failAllAllocations(true);
        }
        {
            Lib l;
            dropAll(g_slots[id]);
        }
        rt::failAllAllocations(false);
        rt::opEnd();
        if (g_plan.repeat > 1) {
            rt::emit("L " + dec(rep) + " " + dec((long long)rt::liveBlocks()) + " " + dec((long long)rt::liveBytes()) +
                     "\n");
        }
    }
}
static void preBody(int) {
    g_quiet = false;
    runProgram(4, 0, SHARED);
}
static void postBody(int) {
    runProgram(5, 0, SHARED);
}
static void sharedDrop(int) {
    rt::opBegin(100001, false);
    Lib l;
    dropAll(g_slots[SHARED]);
}

static void readPlan(const std::string &text) {
    Plan &p = g_plan;
    for (const std::string &line : split(text, '\n')) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        Words w = split(line, ' ');
        const std::string &k = w[0];
        if (k == "0" || k == "1" || k == "2" || k == "3" || k == "4" || k == "5") {
            p.prog[k[0] - '0'].push_back(Words(w.begin() + 1, w.end()));
        } else if (k == "env") {
            for (size_t i = 1; i < w.size(); ++i) {
                size_t e = w[i].find('=');
                std::string f = w[i].substr(0, e), v = w[i].substr(e + 1);
                if (f == "heap") {
                    p.env.heapSeed = unum(v);
                } else if (f == "policy") {
                    p.env.heapPolicy = (int)num(v);
                } else if (f == "gap") {
                    p.env.heapGap = (int)num(v);
                } else if (f == "down") {
                    p.env.heapDown = (int)num(v);
                } else if (f == "stack") {
                    p.env.stackJunk = unum(v);
                    p.junk = 24 * 1024;
                } else if (f == "time") {
                    p.env.timeBase = unum(v);
                } else if (f == "rate") {
                    p.env.timeRate = unum(v);
                } else if (f == "tick") {
                    p.env.timeTick = unum(v);
                } else if (f == "jump") {
                    p.env.timeJump = (int)num(v);
                } else if (f == "facts") {
                    p.env.facts = unum(v);
                }
            }
        } else if (k == "threads") {
            p.threads = (int)num(w[1]);
        } else if (k == "main") {
            p.main = true;
        } else if (k == "stackkib") {
            p.stackKiB[num(w[1])] = (size_t)num(w[2]);
        } else if (k == "sched") { // sched seed gap first wStack wHeap wShared wGlobal wAtomic wAlloc wFunc
            p.sched.seed = unum(w[1]);
            p.sched.gap = unum(w[2]);
            p.sched.first = (int)num(w[3]);
            if (w.size() > 10) {
                p.sched.wStack = (int)num(w[4]);
                p.sched.wHeap = (int)num(w[5]);
                p.sched.wShared = (int)num(w[6]);
                p.sched.wGlobal = (int)num(w[7]);
                p.sched.wAtomic = (int)num(w[8]);
                p.sched.wAlloc = (int)num(w[9]);
                p.sched.wFunc = (int)num(w[10]);
            }
        } else if (k == "trace") {
            p.sched.explicitTrace = true;
            if (w.size() > 1) {
                for (auto &x : split(w[1], ',')) {
                    auto f = split(x, ':');
                    if (f.size() == 4) {
                        p.trace.push_back({(int)num(f[0]), (int)num(f[1]), (uint64_t)num(f[2]), (int)num(f[3])});
                    }
                }
            }
        } else if (k == "fault") { // fault t op alloc|math k once|persist
            p.faults.push_back({(int)num(w[1]), (int)num(w[2]), w[3] == "alloc" ? rt::F_ALLOC : rt::F_MATH, unum(w[4]),
                                w[5] == "persist"});
        } else if (k == "budget") {
            p.budget = unum(w[1]);
        } else if (k == "repeat") {
            p.repeat = (int)num(w[1]);
        } else if (k == "snap") {
            p.snap = true;
        } else if (k == "fp") {
            p.fpEach = true;
        } else if (k == "check") {
            p.each = true;
        } else if (k == "sites") {
            p.sites = true;
        } else if (k == "vary") {
            p.vary = true;
        } else if (k == "dropfail") {
            p.dropFail = true;
        } else if (k == "longtext") {
            g_shorten = 200000;
        } else if (k == "late") { // the library's static objects are initialised by the program
            p.late = p.life = true;
        } else if (k == "life") {
            p.life = true;
        } else if (k == "watch") {
            p.watchCfg = true;
        } else {
            rt::emit("B " + k + "\n");
            rt::finish();
        }
    }
    p.sched.trace = p.trace.data();
    p.sched.traceLen = (int)p.trace.size();
    for (auto &s : p.trace) {
        if (s.from == 4) {
            p.sched.first = s.to;
        }
    }
}

static void runPlan(const std::string &text) {
    struct itimerval it = {{0, 0}, {100, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(600);
    g_coutOld = std::cout.rdbuf(&g_coutBuf);
    readPlan(text);
    Plan &p = g_plan;
    if (!p.late) {
        rt::libraryInit(0, -1);
    }
    rt::libraryLife(p.life);
    rt::recordSites(p.sites);
    rt::configure(p.env, p.sched, p.faults.data(), (int)p.faults.size(), p.budget);
    g_solo = p.main || p.threads == 1;
    rt::setPhase("before");
    if (!p.prog[4].empty()) {
        rt::runOnController(preBody, 4);
    }
    std::string start;
    if (p.snap && !g_solo) {
        start = processState();
    }
    if (p.watchCfg) {
        rt::watch(&Config::Get(), sizeof(Config));
    }
    rt::setPhase("run");
    if (p.main) {
        rt::runOnController(mainBody, 0);
    } else {
        rt::runThreads(p.threads, threadBody, p.stackKiB);
        if (p.dropFail) {
            for (int i = 0; i < p.threads; ++i) {
                rt::runOnController(
                    [](int id) {
                        rt::opBegin(100000, false);
                        rt::failAllAllocations(true);
                        Lib l;
                        dropAll(g_slots[id]);
                    },
                    i);
                rt::failAllAllocations(false);
            }
        }
    }
    rt::setPhase("after");
    if (p.watchCfg) {
        rt::unwatch();
    }
    if (p.snap && !g_solo) {
        std::string end = processState(true);
        if (end != start) {
            size_t k = 0;
            while (k < start.size() && k < end.size() && start[k] == end[k]) {
                ++k;
            }
            size_t b = start.rfind(' ', k);
            b = b == std::string::npos ? 0 : b + 1;
            rt::violation("state", "%s", quote(start.substr(b, 60) + " -> " + end.substr(b, 60)).c_str());
        }
    }
    if (!p.prog[5].empty()) {
        rt::runOnController(postBody, 5 - 1);
    }
    rt::runOnController(sharedDrop, 4);
    rt::emit("H " + hex64(rt::eventHash()) + " " + dec((long long)rt::totalSteps()) + " " +
             dec((long long)rt::totalSwitches()) + " " + hex64(rt::traceHash()) + " " +
             dec((long long)rt::faultsFired(0)) + " " + dec((long long)rt::faultsFired(1)) + "\n");
    rt::emit(std::string("T ") + rt::traceText() + "\n");
    rt::finish();
}

// ------------------------------------------------------------------ server: one forked child per plan
static bool readAll(int fd, char *b, size_t n) {
    while (n) {
        ssize_t r = read(fd, b, n);
        if (r <= 0) {
            return false;
        }
        b += r;
        n -= (size_t)r;
    }
    return true;
}
static void writeAll(int fd, const char *b, size_t n) {
    while (n) {
        ssize_t r = write(fd, b, n);
        if (r <= 0) {
            _exit(5);
        }
        b += r;
        n -= (size_t)r;
    }
}

int main(int, char **argv) {
    if (!getenv("SIM_NORANDOM")) { // the same addresses in every process, where the host permits it
        setenv("SIM_NORANDOM", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    rt::initProcess();
    rt::warmLocale();
    while (true) {
        uint32_t len;
        if (!readAll(0, (char *)&len, 4)) {
            return 0;
        }
        std::string plan(len, ' ');
        if (!readAll(0, &plan[0], len)) {
            return 0;
        }
        int fd[2];
        if (pipe(fd) != 0) {
            return 6;
        }
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(null, 1);
            if (!getenv("SIM_STDERR")) {
                dup2(null, 2);
            }
            rt::setResultFd(fd[1]);
            runPlan(plan);
        }
        close(fd[1]);
        std::string res;
        char b[65536];
        ssize_t r;
        while ((r = read(fd[0], b, sizeof b)) > 0) {
            res.append(b, (size_t)r);
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            res += "F killed:" + dec(WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) + " t=-1 op=-1\n";
        }
        uint32_t n = (uint32_t)res.size();
        writeAll(1, (char *)&n, 4);
        writeAll(1, res.data(), n);
    }
}
