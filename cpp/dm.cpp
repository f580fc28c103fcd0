// The interactive derivator (examples/diff_machine) on a simulated console. Not instrumented; the program is.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

int diff_machine_main();

// the console of the simulation stays in place
bool std::ios_base::sync_with_stdio(bool) {
    return true;
}

static std::string g_in;            // what arrives before the end
static std::string g_log;           // what happened, in order
static std::vector<size_t> g_pieces = {1};
static char g_end = 'e';            // e end of file, t failure (exception), r end of file once, then more input
static std::string g_more;          // input after a transient end

static bool g_ended = false; // the input has been at its end
static uint64_t g_afterSteps = 30000000;
static int g_after = 0;      // what the program wrote since
static void emitLog();
static void noteAfter() {
    if (!g_ended && std::cin.fail()) {
        g_ended = true;
        rt::limitSteps(g_afterSteps);
        g_log += "e\n";
    }
    if (g_ended && ++g_after > 400) {
        rt::emit("R loops\n");
        rt::emit("N " + std::to_string(rt::totalSteps()) + " 0 " + std::to_string(rt::faultsFired(0)) + " 0 1\n");
        emitLog();
        rt::emit("H\n");
        rt::finish();
    }
}

static void logText(char kind, const char *s, size_t n) {
    g_log += kind;
    static const char *hex = "0123456789abcdef";
    for (size_t i = 0; i < n; ++i) {
        g_log += hex[(unsigned char)s[i] >> 4];
        g_log += hex[(unsigned char)s[i] & 15];
    }
    g_log += '\n';
}

class OutBuf : public rt::SimBuf {
public:
    char kind = 'o';

protected:
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        rt::Out out;
        noteAfter();
        uint64_t before = count();
        struct Note {
            OutBuf *b;
            const char *s;
            uint64_t before;
            ~Note() {
                if (b->count() > before) {
                    logText(b->kind, s, (size_t)(b->count() - before));
                }
            }
        } note{this, s, before};
        return SimBuf::xsputn(s, n);
    }
    int_type overflow(int_type c) override {
        rt::Out out;
        uint64_t before = count();
        int_type r = SimBuf::overflow(c);
        if (count() > before) {
            char x = (char)c;
            logText(kind, &x, 1);
        }
        return r;
    }
    int sync() override {
        rt::Out out;
        noteAfter();
        int r = SimBuf::sync();
        if (r == 0) {
            g_log += kind == 'o' ? "s\n" : "u\n";
        }
        return r;
    }
};

class InBuf : public std::streambuf {
public:
    size_t pos = 0, npiece = 0;
    long ends = 0;

protected:
    int_type underflow() override {
        rt::Out out;
        if (gptr() && gptr() < egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        if (g_end == 'r' && ends == 1 && !g_more.empty()) {
            g_in += g_more;
            g_more.clear();
        }
        if (pos >= g_in.size()) {
            ++ends;
            g_ended = true;
            rt::limitSteps(g_afterSteps);
            noteAfter();
            g_log += "e\n";
            setg(buf, buf, buf);
            if (g_end == 't') {
                throw rt::SimIoError{5};
            }
            return traits_type::eof();
        }
        size_t n = g_pieces[npiece++ % g_pieces.size()];
        if (n > g_in.size() - pos) {
            n = g_in.size() - pos;
        }
        if (n > sizeof buf) {
            n = sizeof buf;
        }
        memcpy(buf, g_in.data() + pos, n);
        pos += n;
        g_log += "i" + std::to_string(n) + "\n";
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }

private:
    char buf[70000];
};

static OutBuf g_out, g_err;
static InBuf g_inbuf;

static std::string unq(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}

static std::string g_result = "none";

static void body(int) {
    rt::opBegin(0, true);
    {
        rt::Lib l;
        try {
            int r = diff_machine_main();
            rt::Out out;
            g_result = "returned " + std::to_string(r);
        } catch (const std::exception &e) {
            rt::Out out;
            int st = 0;
            char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
            g_result = std::string("escaped ") + (d ? d : "?");
        } catch (const rt::SimIoError &) {
            rt::Out out;
            g_result = "escaped io";
        } catch (...) {
            rt::Out out;
            g_result = "escaped ?";
        }
    }
    rt::OpStat s = rt::opEnd();
    rt::emit("R " + g_result + "\n");
    rt::emit("N " + std::to_string(s.steps) + " " + std::to_string(s.allocs) + " " + std::to_string(s.fired[0]) + " " +
             std::to_string(g_inbuf.pos) + " " + std::to_string(g_inbuf.ends) + "\n");
}

static void emitLog() {
    // long logs are cut at the end; the check notices the missing mark
    if (g_log.size() > 3500000) {
        g_log.resize(3500000);
        g_log += "\ncut\n";
    }
    rt::emit("G\n");
    rt::emit(g_log);
}
static void lastWords() {
    emitLog();
    rt::emit("H\n");
}

static std::vector<rt::FaultSpec> g_faults;

static void runPlan(const std::string &plan) {
    struct itimerval it = {{0, 0}, {100, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(600);
    rt::Env env;
    rt::SchedSpec sched;
    uint64_t budget = 0;
    size_t i = 0;
    while (i < plan.size()) {
        size_t e = plan.find('\n', i);
        std::string line = plan.substr(i, e - i);
        i = e == std::string::npos ? plan.size() : e + 1;
        std::vector<std::string> w;
        size_t b = 0;
        while (b <= line.size()) {
            size_t c = line.find(' ', b);
            c = c == std::string::npos ? line.size() : c;
            w.push_back(line.substr(b, c - b));
            b = c + 1;
        }
        if (w[0] == "in") {
            g_in = unq(w[1]);
        } else if (w[0] == "more") {
            g_more = unq(w[1]);
        } else if (w[0] == "pieces") {
            g_pieces.clear();
            for (size_t k = 1; k < w.size(); ++k) {
                g_pieces.push_back((size_t)atoll(w[k].c_str()));
            }
        } else if (w[0] == "end") {
            g_end = w[1][0];
        } else if (w[0] == "out" || w[0] == "err") {
            OutBuf &o = w[0] == "out" ? g_out : g_err;
            rt::SimBuf::Mode m = w[1] == "refuse" ? rt::SimBuf::REFUSE
                                 : w[1] == "short" ? rt::SimBuf::SHORT
                                 : w[1] == "throw" ? rt::SimBuf::THROW
                                                   : rt::SimBuf::OK;
            o.reset(m, strtoull(w[2].c_str(), nullptr, 10), 0);
        } else if (w[0] == "fault") {
            g_faults.push_back({0, 0, w[1] == "alloc" ? rt::F_ALLOC : rt::F_MATH, strtoull(w[2].c_str(), nullptr, 10),
                                w[3] == "persist"});
        } else if (w[0] == "after") {
            g_afterSteps = strtoull(w[1].c_str(), nullptr, 10);
        } else if (w[0] == "budget") {
            budget = strtoull(w[1].c_str(), nullptr, 10);
        } else if (w[0] == "env") {
            env.heapSeed = strtoull(w[1].c_str(), nullptr, 10);
            env.heapPolicy = atoi(w[2].c_str());
        } else if (!w[0].empty()) {
            rt::emit("B " + line + "\n");
            rt::finish();
        }
    }
    g_err.kind = 'c';
    std::cout.rdbuf(&g_out);
    std::cerr.rdbuf(&g_err);
    std::clog.rdbuf(&g_err);
    std::cin.rdbuf(&g_inbuf);
    g_log.reserve(1 << 22);
    rt::onFatal = lastWords;
    rt::configure(env, sched, g_faults.data(), (int)g_faults.size(), budget);
    rt::setPhase("run");
    rt::runOnController(body, 0);
    emitLog();
    rt::emit("H\n");
    rt::finish();
}

static bool readAll(int fd, char *b, size_t n) {
    while (n) {
        ssize_t r = read(fd, b, n);
        if (r <= 0) {
            return false;
        }
        b += r;
        n -= (size_t)r;
    }
    return true;
}

int main(int, char **argv) {
    if (!getenv("SIM_NORANDOM")) {
        setenv("SIM_NORANDOM", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    rt::libraryInit(0, -1);
    rt::initProcess();
    rt::warmLocale();
    while (true) {
        uint32_t len;
        if (!readAll(0, (char *)&len, 4)) {
            return 0;
        }
        std::string plan(len, ' ');
        if (!readAll(0, &plan[0], len)) {
            return 0;
        }
        int fd[2];
        if (pipe(fd) != 0) {
            return 6;
        }
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(null, 1);
            if (!getenv("SIM_STDERR")) {
                dup2(null, 2);
            }
            rt::setResultFd(fd[1]);
            runPlan(plan);
        }
        close(fd[1]);
        std::string res;
        char b[65536];
        ssize_t r;
        while ((r = read(fd[0], b, sizeof b)) > 0) {
            res.append(b, (size_t)r);
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            res += "F killed:" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) + " t=-1 op=-1\n";
        }
        uint32_t n = (uint32_t)res.size();
        if (write(1, &n, 4) != 4) {
            return 5;
        }
        for (size_t o = 0; o < res.size();) {
            ssize_t k = write(1, res.data() + o, res.size() - o);
            if (k <= 0) {
                return 5;
            }
            o += (size_t)k;
        }
    }
}
