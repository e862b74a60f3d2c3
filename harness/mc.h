// Bounded-exhaustive exploration driver shared by every harness.
//
// A harness enumerates *cases* in a fixed order.  A case is one complete execution (an operation history, an
// input shape, a schedule); it is named by a string that replays exactly that execution (--only <name>).
// The explorer runs the cases in a child process: if the code under test crashes, aborts or hangs inside a case
// the parent records that case as failing, and a new child goes on behind it.  Nothing is sampled: a run either
// completes the enumeration or says that it stopped early (exhaustive=false).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <type_traits>
#include <array>
#include <memory>
#include <numeric>
#include <iterator>
#include <limits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>

namespace mc {

struct Shared {
    volatile uint64_t ordinal;     // number of the case running now (1-based; 0: none yet)
    volatile int      in_case;
    volatile int      done;        // enumeration finished
    volatile int      capped;      // time budget hit
    volatile uint64_t cases, states, transitions, checks, outcomes;
    volatile uint64_t fails;
    volatile uint64_t nskipped_sig;
    char id[4096];
};

struct Opt {
    bool thorough = false;
    std::string only;
    bool has_only = false;
    uint64_t shard = 0, nshard = 1;
    double budget = 1e9;
    double hang = 150;
    std::string out;
    std::string variant;
    bool list = false;
};

inline Opt& opt() { static Opt o; return o; }
inline Shared*& sh() { static Shared* s = nullptr; return s; }
inline FILE*& outf() { static FILE* f = nullptr; return f; }
inline uint64_t& ord() { static uint64_t o = 0; return o; }
inline uint64_t& resume_after() { static uint64_t o = 0; return o; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline double& t0() { static double t = now(); return t; }
inline std::map<std::string, int>& sigcount() { static std::map<std::string, int> m; return m; }
inline bool& casefailed() { static bool b = false; return b; }
inline std::unordered_set<uint64_t>& outset() { static std::unordered_set<uint64_t> s; return s; }
inline int& nsamples() { static int n = 0; return n; }
inline std::string& cursig() { static std::string s; return s; }

inline bool thorough() { return opt().thorough; }
inline bool replaying() { return opt().has_only; }

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list a; va_start(a, f); char b[4096]; vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline void emit(const std::string& line) {
    fputs(line.c_str(), outf()); fputc('\n', outf()); fflush(outf());
}

// --- counters
inline void state(uint64_t n = 1) { sh()->states += n; }
inline void trans(uint64_t n = 1) { sh()->transitions += n; }
inline void checked(uint64_t n = 1) { sh()->checks += n; }
inline void outcome(uint64_t h) { if (outset().size() < 4000000 && outset().insert(h).second) sh()->outcomes++; }
inline void outcome(const std::string& s) { outcome(std::hash<std::string>()(s)); }
inline void sample(const std::string& s) {
    if (nsamples() < 3) { ++nsamples(); emit("{\"kind\":\"sample\",\"case\":\"" + jesc(sh()->id) + "\",\"text\":\"" + jesc(s) + "\"}"); }
}

// --- case control.  `group` names the failure class used if the case crashes.
inline bool budget_left() {
    if (now() - t0() > opt().budget) { sh()->capped = 1; return false; }
    return true;
}
inline bool begin_case(const std::string& id, const std::string& group = "") {
    uint64_t o = ++ord();
    if (opt().has_only) { if (id != opt().only) return false; }
    else {
        if (o % opt().nshard != opt().shard) return false;
        if (o <= resume_after()) return false;
        if (!budget_left()) return false;
    }
    if (opt().list) { puts(id.c_str()); return false; }
    sh()->ordinal = o;
    snprintf(sh()->id, sizeof(sh()->id), "%s", id.c_str());
    cursig() = group;
    casefailed() = false;
    sh()->in_case = 1;
    sh()->cases++;
    return true;
}
inline void end_case() { sh()->in_case = 0; }

// report a property violation in the current case; sig identifies *what* fails (call site / input class)
inline void fail(const std::string& sig, const std::string& what) {
    casefailed() = true;
    sh()->fails++;
    int& c = sigcount()[sig];
    if (++c > 3) { sh()->nskipped_sig++; return; }
    emit("{\"kind\":\"viol\",\"sig\":\"" + jesc(sig) + "\",\"case\":\"" + jesc(sh()->id) + "\",\"text\":\"" + jesc(what) + "\"}");
}
inline bool require(bool ok, const std::string& sig, const std::string& what) {
    sh()->checks++;
    if (!ok) fail(sig, what);
    return ok;
}
#define MC_REQ(cond, sig, ...) do { ::mc::sh()->checks++; if (!(cond)) ::mc::fail(sig, ::mc::fmt(__VA_ARGS__)); } while (0)

// run a case body, turning C++ exceptions into violations
template<class F> inline void run_case(const std::string& id, const std::string& group, F&& f) {
    if (!begin_case(id, group)) return;
    try { f(); }
    catch (const std::exception& e) { fail(group + ":exception", std::string("unexpected exception: ") + e.what()); }
    catch (...) { fail(group + ":exception", "unexpected exception (not std::exception)"); }
    end_case();
}

// --- hashing
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

inline std::string& groupfile() { static std::string s; return s; }

inline int main_(int argc, char** argv, void (*body)()) {
    Opt& o = opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if (a == "--tier") o.thorough = (nxt() == "thorough");
        else if (a == "--only") { o.only = nxt(); o.has_only = true; }
        else if (a == "--shard") { std::string s = nxt(); unsigned long x, y; if (sscanf(s.c_str(), "%lu/%lu", &x, &y) != 2) return 2; o.shard = x; o.nshard = y; }
        else if (a == "--budget") o.budget = atof(nxt().c_str());
        else if (a == "--hang") o.hang = atof(nxt().c_str());
        else if (a == "--out") o.out = nxt();
        else if (a == "--variant") o.variant = nxt();
        else if (a == "--list") o.list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    t0() = now();
    outf() = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (!outf()) { perror("out"); return 2; }
    if (!o.out.empty()) { int fd = fileno(outf()); fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_APPEND); }
    sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh(), 0, sizeof(Shared));
    char* grp = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    (void)grp;
    if (o.list) { body(); return 0; }
    std::string errname = "/tmp/mc_err_XXXXXX";
    int errfd = mkstemp(&errname[0]);
    int restarts = 0;
    while (true) {
        fflush(nullptr);
        if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            if (errfd >= 0 && !o.has_only) { dup2(errfd, 2); }
            struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            // deep recursion must end soon
            body();
            sh()->done = 1;
            fflush(nullptr);
            _exit(0);
        }
        int st = 0; bool hung = false;
        uint64_t last = ~0ull; double lastt = now();
        while (true) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (w < 0) { perror("waitpid"); return 2; }
            uint64_t c = sh()->ordinal * 2 + sh()->in_case + (uint64_t(sh()->states) << 40);   // alive as long as new states come
            double t = now();
            if (c != last) { last = c; lastt = t; }
            else if (sh()->in_case && t - lastt > o.hang) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            usleep(2000);
        }
        if (sh()->done) break;
        // child ended inside a case
        if (!sh()->in_case) {
            std::string tail;
            if (errfd >= 0) { lseek(errfd, 0, SEEK_SET); char b[1500]; ssize_t n = read(errfd, b, sizeof b); if (n > 0) tail.assign(b, n); }
            emit("{\"kind\":\"error\",\"text\":\"" + jesc("explorer child ended outside a case, status " + std::to_string(st) + " " + tail) + "\"}");
            if (errfd >= 0) unlink(errname.c_str());
            return 2;
        }
        std::string why, line;
        if (errfd >= 0) {
            lseek(errfd, 0, SEEK_SET);
            std::string all; char b[4096]; ssize_t n;
            while ((n = read(errfd, b, sizeof b)) > 0 && all.size() < 100000) all.append(b, n);
            std::istringstream is(all); std::string l;
            while (std::getline(is, l)) if (l.find("Assertion") != std::string::npos || l.find("ERROR:") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("SUMMARY") != std::string::npos) { line += l + " | "; if (line.size() > 600) break; }
        }
        if (hung) why = "hang";
        else if (WIFSIGNALED(st)) why = std::string("signal ") + strsignal(WTERMSIG(st));
        else why = "exit " + std::to_string(WEXITSTATUS(st));
        sh()->fails++;
        std::string id = sh()->id;
        std::string g = id.substr(0, id.find_first_of(" ("));
        emit("{\"kind\":\"viol\",\"sig\":\"" + jesc("crash:" + g) + "\",\"case\":\"" + jesc(id) + "\",\"text\":\"" + jesc(why + " " + line) + "\"}");
        sh()->in_case = 0;
        if (o.has_only) break;
        if (++restarts > 30) { sh()->capped = 1; break; }
        resume_after() = sh()->ordinal;
    }
    if (errfd >= 0) { close(errfd); unlink(errname.c_str()); }
    emit(fmt("{\"kind\":\"total\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,\"outcomes\":%llu,\"fails\":%llu,\"capped\":%d,\"wall\":%.3f}",
        (unsigned long long)sh()->cases, (unsigned long long)sh()->states, (unsigned long long)sh()->transitions, (unsigned long long)sh()->checks,
        (unsigned long long)sh()->outcomes, (unsigned long long)sh()->fails, sh()->capped, now() - t0()));
    if (o.has_only && sh()->cases == 0) { emit("{\"kind\":\"error\",\"text\":\"no such case\"}"); return 2; }
    return sh()->fails ? 1 : 0;
}
} // namespace mc

#define MC_MAIN(body) int main(int argc, char** argv) { return mc::main_(argc, argv, body); }

// allow the ASAN build to end with a signal the explorer sees
extern "C" __attribute__((weak)) const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:color=never"; }
