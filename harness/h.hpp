// Runtime-contract harness: runs the real code against an oracle written from the property statement.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <chrono>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fstream>
#include <exception>

namespace h {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed, std::uint64_t k) : s(seed * 0x9E3779B97F4A7C15ull ^ (k + 1) * 0xD1B54A32D192ED03ull) { next(); next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
    std::int64_t in(std::int64_t a, std::int64_t b) { return a + (std::int64_t) below((std::size_t) (b - a + 1)); }
    bool flip(int pct = 50) { return (int) below(100) < pct; }
    double unit() { return (double) (next() >> 11) * 0x1p-53; }
    double real(double a, double b) { return a + (b - a) * unit(); }
};

struct Fail : std::exception {
    std::string key, what_;
    Fail(std::string k, std::string w) : key(std::move(k)), what_(std::move(w)) {}
    const char *what() const noexcept override { return what_.c_str(); }
};

struct Ctx {
    Rng rng;
    std::uint64_t index;      // case number: small numbers may be used for exhaustive enumeration
    std::ostringstream trace; // what the case does, written out
    bool nontrivial = false;
    Ctx(std::uint64_t seed, std::uint64_t k) : rng(seed, k), index(k) { trace.precision(17); }
    template<class... A>
    void require(bool ok, const char *key, A &&... a) {
        if (ok) return;
        std::ostringstream o;
        o.precision(17);
        (o << ... << a);
        throw Fail(key, o.str());
    }
};

inline std::string esc(const std::string &s, std::size_t lim = 4000) {
    std::string o;
    for (unsigned char c : s.substr(0, lim)) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

struct Slot { volatile std::uint64_t cur, done, nontriv, distinct; volatile int failed; char key[200]; char what[3000]; char trace[6000]; char sample[3][1500]; };

inline std::uint64_t fnv(const std::string &s) { std::uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// --seed S --cases N --time T --jobs J | --replay K
inline int run(int argc, char **argv, const std::function<void(Ctx &)> &fn, unsigned hang_s = 60) {
    std::uint64_t seed = 1, cases = 2000, replay = ~0ull;
    double tlimit = 30;
    int jobs = 8;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
        if (a == "--cases") cases = std::strtoull(argv[i + 1], nullptr, 10);
        if (a == "--time") tlimit = std::atof(argv[i + 1]);
        if (a == "--jobs") jobs = std::atoi(argv[i + 1]);
        if (a == "--replay") replay = std::strtoull(argv[i + 1], nullptr, 10);
    }
    if (replay != ~0ull) {
        Ctx c(seed, replay);
        try { fn(c); }
        catch (const Fail &f) { std::printf("case %llu FAILS [%s]: %s\ntrace:\n%s\n", (unsigned long long) replay, f.key.c_str(), f.what(), c.trace.str().c_str()); return 1; }
        catch (const std::exception &e) { std::printf("case %llu FAILS [exception]: %s\ntrace:\n%s\n", (unsigned long long) replay, e.what(), c.trace.str().c_str()); return 1; }
        std::printf("case %llu holds\n%s\n", (unsigned long long) replay, c.trace.str().c_str());
        return 0;
    }
    auto *sl = (Slot *) mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset(sl, 0, sizeof(Slot) * jobs);
    std::vector<pid_t> pids(jobs);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    for (int j = 0; j < jobs; ++j) {
        pids[j] = fork();
        if (pids[j] == 0) {
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            Slot &s = sl[j];
            std::set<std::uint64_t> seen;
            for (std::uint64_t k = j; k < cases && el() < tlimit; k += jobs) {
                s.cur = k;
                Ctx c(seed, k);
                auto fail = [&](const std::string &key, const std::string &w) {
                    s.failed = 1;
                    std::snprintf(s.key, sizeof s.key, "%s", key.c_str());
                    std::snprintf(s.what, sizeof s.what, "%s", w.c_str());
                    std::snprintf(s.trace, sizeof s.trace, "%s", c.trace.str().c_str());
                    _exit(0);
                };
                try { fn(c); }
                catch (const Fail &f) { fail(f.key, f.what()); }
                catch (const std::exception &e) { fail("exception", e.what()); }
                s.done = s.done + 1;
                auto tr = c.trace.str();
                if (c.nontrivial && seen.insert(fnv(tr)).second) {
                    if (s.distinct < 3) std::snprintf(s.sample[s.distinct], sizeof s.sample[0], "%s", tr.c_str());
                    s.distinct = s.distinct + 1;
                }
            }
            _exit(0);
        }
    }
    std::vector<std::uint64_t> last(jobs, ~0ull);
    std::vector<double> since(jobs, 0);
    std::vector<int> alive(jobs, 1);
    int n = jobs;
    while (n > 0) {
        for (int j = 0; j < jobs; ++j) {
            if (!alive[j]) continue;
            int st = 0;
            if (waitpid(pids[j], &st, WNOHANG) == pids[j]) {
                alive[j] = 0; --n;
                if (!sl[j].failed && (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)) {
                    sl[j].failed = 1;
                    std::snprintf(sl[j].key, sizeof sl[j].key, "crash");
                    std::snprintf(sl[j].what, sizeof sl[j].what, "the process ended with %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                }
                continue;
            }
            if (sl[j].cur != last[j]) { last[j] = sl[j].cur; since[j] = el(); }
            else if (el() - since[j] > hang_s) {
                kill(pids[j], SIGKILL);
                waitpid(pids[j], &st, 0);
                alive[j] = 0; --n;
                sl[j].failed = 1;
                std::snprintf(sl[j].key, sizeof sl[j].key, "hang");
                std::snprintf(sl[j].what, sizeof sl[j].what, "no progress for %u s", hang_s);
            }
        }
        usleep(2000);
    }
    std::uint64_t done = 0, dist = 0;
    for (int j = 0; j < jobs; ++j) { done += sl[j].done; dist += sl[j].distinct; }
    std::printf("{\"evaluations\": %llu, \"distinct\": %llu, \"seed\": %llu, \"wall\": %.2f, \"samples\": [", (unsigned long long) done, (unsigned long long) dist, (unsigned long long) seed, el());
    bool first = true;
    for (int j = 0; j < jobs && j < 2; ++j)
        for (int q = 0; q < 3 && q < (int) sl[j].distinct; ++q) {
            std::printf("%s\"%s\"", first ? "" : ", ", esc(sl[j].sample[q], 1500).c_str());
            first = false;
        }
    std::printf("], \"failures\": [");
    first = true;
    int rc = 0;
    for (int j = 0; j < jobs; ++j)
        if (sl[j].failed) {
            rc = 1;
            std::printf("%s{\"case\": %llu, \"key\": \"%s\", \"what\": \"%s\", \"trace\": \"%s\"}", first ? "" : ", ", (unsigned long long) sl[j].cur, esc(sl[j].key).c_str(), esc(sl[j].what).c_str(), esc(sl[j].trace, 6000).c_str());
            first = false;
        }
    std::printf("]}\n");
    return rc;
}

// several named groups of cases, interleaved; a group may be picked by the index
using Group = std::function<void(Ctx &)>;
inline int run(int argc, char **argv, const std::vector<Group> &gs) {
    return run(argc, argv, [&](Ctx &c) { gs[(c.index / 8) % gs.size()](c); });
}

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

}
