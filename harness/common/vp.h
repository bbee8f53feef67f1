// Small property-based testing engine: cases are lists of operations; each case runs in a forked child.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace vp {

struct Op {
    std::string k;
    std::vector<int64_t> a;
    std::string s;
    Op() {}
    Op(const std::string& kind, std::vector<int64_t> args = {}, const std::string& str = std::string()) :
        k(kind), a(std::move(args)), s(str) {}
    int64_t at(size_t i, int64_t dflt = 0) const { return i < a.size() ? a[i] : dflt; }
};

struct Case {
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string& k, int64_t dflt = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? dflt : it->second;
    }
    std::string encode() const;
    static bool decode(const std::string& text, Case& out);
    uint64_t hash() const;
};

uint64_t mix64(uint64_t x);

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next();
    int64_t range(int64_t lo, int64_t hi);  // inclusive
    bool chance(int num, int den) { return range(1, den) <= num; }
    // 0..n-1
    int64_t below(int64_t n) { return n <= 1 ? 0 : range(0, n - 1); }
    // skewed toward small values: a random number of bits
    int64_t small(int64_t maxv);
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[(size_t)below((int64_t)v.size())]; }
    int weighted(const std::vector<int>& w);  // index
    std::string bytes(size_t n, int mode = 0);
};

struct Info {
    std::string id;
    std::string rule;               // how cases are made and what is non-trivial
    int64_t watchdogMs = 20000;     // a case that takes longer than this (of observed ticks) hangs
    bool hangIsFailure = true;
    int batch = 1;                  // cases per forked child
    int shrinkMs = 25000;
    int confirmRuns = 20;           // replays to reproduce a hard failure
    bool exploreAll = false;        // enumerate: stop when the enumeration (vpEnumerate) is finished
    int minUnreproduced = 2;        // this many hard failures count even if not reproduced
};

}
// ---- provided by the harness -------------------------------------------------
extern void vpInfo(vp::Info& info);
extern vp::Case vpGenerate(vp::Rng& rng, int64_t index, bool thorough);
extern void vpRun(const vp::Case& c);          // in a forked child; returns normally when the property held
extern bool vpValid(const vp::Case& c);        // candidate produced by the shrinker still makes sense

namespace vp {
// ---- for use inside vpRun ----------------------------------------------------
[[noreturn]] void fail(const std::string& msg);                                // hard evidence
[[noreturn]] void failSig(const std::string& sig, const std::string& msg);     // with a signature for known findings
[[noreturn]] void failTiming(const std::string& msg);                          // depends on wall-clock: confirmed on a quiet machine
[[noreturn]] void discard(const std::string& why);                             // case does not count
void label(const std::string& l);
void nontrivial();
void metric(const std::string& name, int64_t add = 1);
void phase(const std::string& p);          // shown when the case hangs or crashes
std::string prefix();                      // unique channel/shm name prefix of this case
uint64_t caseSeed();
bool replaying();
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const std::string& s, size_t maxBytes = 48);
int64_t nowUs();                           // monotonic
void sleepUs(int64_t us);
#define VP_CHECK(cond, ...) do { if (!(cond)) ::vp::fail(::vp::strf(__VA_ARGS__)); } while (0)

// number of names in /dev/shm containing s
std::vector<std::string> shmNames(const std::string& s);

}  // namespace vp
