// support for the bounded harnesses: deterministic RNG, case/failure reporting, crash attribution.
// Output protocol (file named by $HARNESS_OUT): @CASE / @FAIL key=K msg / @STAT / @SAMPLE / @DONE
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <chrono>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <cmath>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace hz {
inline FILE *out = stdout;
inline std::string cur_case = "(none)";
inline uint64_t evaluations = 0;
inline std::set<size_t> distinct;
inline uint64_t trivial = 0;
inline std::map<std::string, int> failcount;
inline int nsamples = 0;
inline uint64_t seed0 = 1;
inline bool thorough = false;
inline double time_cap = 40;
inline auto t_start = std::chrono::steady_clock::now();

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); }
inline bool out_of_time() { return elapsed() > time_cap; }

inline void emit_case() {
    fprintf(out, "\n@CASE %s\n", cur_case.c_str());
    fflush(out);
}
inline void death() { emit_case(); }
inline void on_signal(int s) {
    emit_case();
    signal(s, SIG_DFL);
    raise(s);
}

// a check runs only the parts of a shared harness that exercise its own property (HARNESS_PARTS, comma separated)
inline bool part(const std::string &name) {
    const char *p = getenv("HARNESS_PARTS");
    if (!p || !*p) return true;
    return ("," + std::string(p) + ",").find("," + name + ",") != std::string::npos;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool coin() { return next() & 1; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
inline Rng rng(1);

inline void init() {
    if (const char *f = getenv("HARNESS_OUT")) out = fopen(f, "w");
    if (const char *s = getenv("VERIF_SEED")) seed0 = strtoull(s, nullptr, 10);
    if (const char *t = getenv("VERIF_TIER")) thorough = std::string(t) == "thorough";
    time_cap = thorough ? 240 : 30;
    if (const char *t = getenv("HARNESS_CAP")) time_cap = atof(t);
    rng = Rng(seed0);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) {
        if (s == SIGSEGV || s == SIGBUS) { if (__sanitizer_set_death_callback) continue; }
        signal(s, on_signal);
    }
    std::set_terminate([] { emit_case(); abort(); });
}

inline void note_case(const std::string &desc, bool nontrivial = true) {
    cur_case = desc;
    evaluations++;
    if (nontrivial) {
        if (distinct.size() < 2000000) distinct.insert(std::hash<std::string>{}(desc));
    }
    if (nsamples < 6 && (evaluations % 37 == 1)) {
        nsamples++;
        fprintf(out, "@SAMPLE %s\n", desc.c_str());
        fflush(out);
    }
}
inline void fail(const std::string &key, const std::string &msg) {
    int n = ++failcount[key];
    if (n <= 3) {
        std::string m = msg + " [case: " + cur_case + "]";
        for (auto &ch : m) if (ch == '\n') ch = ' ';
        fprintf(out, "@FAIL key=%s %s\n", key.c_str(), m.c_str());
        fflush(out);
    }
}
inline int finish() {
    fprintf(out, "@STAT evaluations=%llu distinct=%llu\n@DONE\n", (unsigned long long)evaluations, (unsigned long long)distinct.size());
    fflush(out);
    fclose(out);
    _exit(0);
}
inline int scale(int quick, int deep) { return thorough ? deep : quick; }

// run body; an exception escaping it is a failure under key
template <class F> void guarded(const std::string &key, F &&f) {
    try {
        f();
    } catch (const std::exception &e) {
        fail(key + ".exception", std::string("unexpected exception: ") + e.what());
    } catch (const char *e) {
        fail(key + ".exception", std::string("unexpected exception: ") + e);
    } catch (...) {
        fail(key + ".exception", "unexpected exception of unknown type");
    }
}
template <class F> bool throws(F &&f) {
    try { f(); } catch (...) { return true; }
    return false;
}
template <class T> std::string str(const std::vector<T> &v) {
    std::ostringstream o;
    o << "{";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << +v[i];
    o << "}";
    return o.str();
}
inline bool close_to(double a, double b, double rel = 1e-4, double abs_ = 1e-6) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
template <class... A> std::string cat(A &&...a) {
    std::ostringstream o;
    o.precision(10);
    ((o << a), ...);
    return o.str();
}
// stores a value in a field that has to be able to hold it
template <class F, class V> void put(F &field, V v, const char *key, const char *what) {
    field = v;
    if ((long double)field != (long double)v) fail(key, cat(what, " set to ", v, " holds ", field));
}
} // namespace hz
