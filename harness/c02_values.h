// C02: typed round trips. Shared by the two translation units of the harness (the types are split to build faster).
#pragma once
#ifndef MSGPACK_USE_STD_VARIANT_ADAPTOR
#define MSGPACK_USE_STD_VARIANT_ADAPTOR
#endif
#include "rpc.h"
#include <string.h>
#include <math.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace c02 {
using namespace vp;
using namespace rpc;

struct Ctx {
    Veigar* from = nullptr;
    Veigar* to = nullptr;
    std::string chan;      // of `to`
    int64_t limit = 0;     // bytes a queue can hold
    uint64_t tok = 0;
    int64_t big = 0;
};

// ---- equality: identical values; floating point bit by bit ------------------------------------------------------------
template <typename T> struct Eq { static bool eq(const T& a, const T& b) { return a == b; } };
template <> struct Eq<double> { static bool eq(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, 8) == 0; } };
template <> struct Eq<float> { static bool eq(float a, float b) { return (a != a && b != b) || memcmp(&a, &b, 4) == 0; } };
template <typename T> struct Eq<std::shared_ptr<T>> { static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return (!a && !b) || (a && b && Eq<T>::eq(*a, *b)); } };
template <typename T> struct Eq<std::optional<T>> { static bool eq(const std::optional<T>& a, const std::optional<T>& b) { return (!a && !b) || (a && b && Eq<T>::eq(*a, *b)); } };
template <typename T> struct Eq<std::vector<T>> {
    static bool eq(const std::vector<T>& a, const std::vector<T>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!Eq<T>::eq(a[i], b[i])) return false;
        return true;
    }
};
template <> struct Eq<timespec> { static bool eq(const timespec& a, const timespec& b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; } };

// ---- generators ------------------------------------------------------------------------------------------------------
inline int64_t lenOf(Rng& r, int sc) {
    static const std::vector<int64_t> edge = {0, 1, 15, 16, 17, 31, 32, 33, 254, 255, 256, 257};
    static const std::vector<int64_t> edge2 = {65534, 65535, 65536, 65537};
    if (sc <= 0) return r.below(4);
    if (sc >= 3 && r.chance(1, 2)) return r.pick(edge2);
    return r.chance(1, 2) ? r.pick(edge) : r.small(300);
}
template <typename T, typename Enable = void> struct Gen;
template <typename T> struct Gen<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T make(Rng& r, int) {
        typedef std::numeric_limits<T> L;
        static const std::vector<int64_t> edges = {0, 1, -1, 31, 32, -31, -32, -33, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL,
                                                   -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MAX - 1};
        switch (r.below(5)) {
            case 0: return (T)r.pick(edges);
            case 1: return (T)((uint64_t)r.pick(edges) + (uint64_t)r.range(-2, 2));
            case 2: return r.chance(1, 2) ? L::max() : L::min();
            case 3: return (T)(r.next() >> r.below(64));
            default: return (T)r.next();
        }
    }
};
template <> struct Gen<bool> { static bool make(Rng& r, int) { return r.chance(1, 2); } };
template <> struct Gen<double> {
    static double make(Rng& r, int) {
        static const std::vector<double> e = {0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 4.9e-324, 2.2250738585072014e-308, INFINITY, -INFINITY, NAN, 16777217.0, 9007199254740993.0, 3.4028235e38, 0.1, 1e15, -1e20};
        if (r.chance(1, 2)) return r.pick(e);
        if (r.chance(1, 3)) return (double)(int64_t)r.next();
        uint64_t b = r.next();
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
};
template <> struct Gen<float> {
    static float make(Rng& r, int) {
        static const std::vector<float> e = {0.0f, -0.0f, 1.0f, -1.5f, 3.4e38f, 1.4e-45f, INFINITY, -INFINITY, NAN, 16777216.0f, 0.1f};
        if (r.chance(1, 2)) return r.pick(e);
        uint32_t b = (uint32_t)r.next();
        float d;
        memcpy(&d, &b, 4);
        return d;
    }
};
struct NN { double v; };  // finite doubles for containers compared with ==
template <> struct Gen<std::string> { static std::string make(Rng& r, int sc) { return r.bytes((size_t)lenOf(r, sc), (int)r.below(3)); } };
template <typename T> struct Gen<std::vector<T>> {
    static std::vector<T> make(Rng& r, int sc) {
        int64_t n = lenOf(r, sizeof(T) > 8 ? std::min(sc, 2) : sc);
        if (sizeof(T) > 8 && n > 40) n = r.chance(1, 3) ? n : n % 40;
        std::vector<T> v;
        for (int64_t i = 0; i < n; i++) v.push_back(Gen<T>::make(r, sc - 1 > 1 ? 1 : sc - 1));
        return v;
    }
};
template <> struct Gen<std::vector<bool>> {
    static std::vector<bool> make(Rng& r, int sc) {
        std::vector<bool> v((size_t)lenOf(r, sc));
        for (size_t i = 0; i < v.size(); i++) v[i] = r.chance(1, 2);
        return v;
    }
};
template <typename C, typename V> C seq(Rng& r, int sc) {
    C c;
    int64_t n = std::min<int64_t>(lenOf(r, std::min(sc, 2)), 260);
    for (int64_t i = 0; i < n; i++) c.insert(c.end(), Gen<V>::make(r, sc - 1));
    return c;
}
template <typename T> struct Gen<std::list<T>> { static std::list<T> make(Rng& r, int sc) { return seq<std::list<T>, T>(r, sc); } };
template <typename T> struct Gen<std::deque<T>> { static std::deque<T> make(Rng& r, int sc) { return seq<std::deque<T>, T>(r, sc); } };
template <typename T> struct Gen<std::set<T>> { static std::set<T> make(Rng& r, int sc) { return seq<std::set<T>, T>(r, sc); } };
template <typename T> struct Gen<std::multiset<T>> { static std::multiset<T> make(Rng& r, int sc) { return seq<std::multiset<T>, T>(r, sc); } };
template <typename T> struct Gen<std::unordered_set<T>> { static std::unordered_set<T> make(Rng& r, int sc) { return seq<std::unordered_set<T>, T>(r, sc); } };
template <typename T> struct Gen<std::forward_list<T>> {
    static std::forward_list<T> make(Rng& r, int sc) {
        std::forward_list<T> c;
        for (int64_t n = std::min<int64_t>(lenOf(r, 1), 100); n > 0; n--) c.push_front(Gen<T>::make(r, sc - 1));
        return c;
    }
};
template <typename A, typename B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(Rng& r, int sc) { A a = Gen<A>::make(r, sc); return {a, Gen<B>::make(r, sc)}; } };
template <typename M, typename K, typename V> M mapOf(Rng& r, int sc) {
    M c;
    int64_t n = std::min<int64_t>(lenOf(r, std::min(sc, 2)), 260);
    for (int64_t i = 0; i < n; i++) { K k = Gen<K>::make(r, sc - 1); c.insert({k, Gen<V>::make(r, sc - 1)}); }
    return c;
}
template <typename K, typename V> struct Gen<std::map<K, V>> { static std::map<K, V> make(Rng& r, int sc) { return mapOf<std::map<K, V>, K, V>(r, sc); } };
template <typename K, typename V> struct Gen<std::multimap<K, V>> { static std::multimap<K, V> make(Rng& r, int sc) { return mapOf<std::multimap<K, V>, K, V>(r, sc); } };
template <typename K, typename V> struct Gen<std::unordered_map<K, V>> { static std::unordered_map<K, V> make(Rng& r, int sc) { return mapOf<std::unordered_map<K, V>, K, V>(r, sc); } };
template <typename K, typename V> struct Gen<std::unordered_multimap<K, V>> { static std::unordered_multimap<K, V> make(Rng& r, int sc) { return mapOf<std::unordered_multimap<K, V>, K, V>(r, sc); } };
template <typename T> struct Gen<std::unordered_multiset<T>> { static std::unordered_multiset<T> make(Rng& r, int sc) { return seq<std::unordered_multiset<T>, T>(r, sc); } };
template <typename T, size_t N> struct Gen<std::array<T, N>> {
    static std::array<T, N> make(Rng& r, int sc) { std::array<T, N> a; for (auto& x : a) x = Gen<T>::make(r, sc - 1); return a; }
};
template <typename... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> make(Rng& r, int sc) { return std::tuple<T...>{Gen<T>::make(r, sc)...}; } };
template <typename T> struct Gen<std::optional<T>> { static std::optional<T> make(Rng& r, int sc) { if (r.chance(1, 3)) return {}; return Gen<T>::make(r, sc); } };
template <typename T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make(Rng& r, int sc) { if (r.chance(1, 3)) return {}; return std::make_shared<T>(Gen<T>::make(r, sc)); } };
template <> struct Gen<timespec> {
    static timespec make(Rng& r, int) {
        timespec t;
        t.tv_sec = r.chance(1, 3) ? r.pick(std::vector<int64_t>{0, 1, 4294967295LL, 4294967296LL, 17179869183LL, 17179869184LL, -1}) : r.small(1LL << 40);
        t.tv_nsec = r.chance(1, 2) ? r.pick(std::vector<int64_t>{0, 1, 999999999}) : r.below(1000000000);
        return t;
    }
};
template <> struct Gen<std::chrono::system_clock::time_point> {
    static std::chrono::system_clock::time_point make(Rng& r, int) {
        return std::chrono::system_clock::time_point(std::chrono::nanoseconds(r.chance(1, 4) ? -(r.small(1LL << 60)) : r.small(1LL << 62)));
    }
};

// ---- echo ------------------------------------------------------------------------------------------------------------
template <typename T> struct Slot {
    std::mutex m;
    uint64_t tok = 0;
    int runs = 0;
    std::shared_ptr<T> v;
    static Slot& of(const std::string& n) { static std::map<std::string, std::unique_ptr<Slot>> s; static std::mutex mm; std::lock_guard<std::mutex> g(mm); auto& p = s[n]; if (!p) p.reset(new Slot); return *p; }
};
struct TypeEntry {
    std::string name;
    std::function<void(Veigar&)> bindTo;
    std::function<void(Ctx&, Rng&, int, int)> run;
};
std::vector<TypeEntry>& types();

template <typename T> std::string show(const T& v) {
    veigar_msgpack::sbuffer b;
    veigar_msgpack::pack(b, v);
    return hex(std::string(b.data(), b.size()), 400);
}

// The call with the given style; the result is handed to f.
template <typename F, typename... A> void callStyle(Ctx& c, int style, const std::string& fn, F f, A... a) {
    if (style == 0) {
        CallResult cr = c.from->syncCall(c.chan, 40000, fn, a...);
        f(cr);
    } else if (style == 1) {
        auto r = c.from->asyncCall(c.chan, 40000, fn, a...);
        if (!r || !r->second.valid()) fail("asyncCall returned no future");
        if (r->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) fail("call of '" + fn + "' never completed");
        CallResult cr = r->second.get();
        c.from->releaseCall(r->first);
        f(cr);
    } else {
        struct Sync { std::mutex m; std::condition_variable cv; bool done = false; };
        auto s = std::make_shared<Sync>();
        c.from->asyncCall(veigar::ResultCallback([s, f](const CallResult& cr) {
            f(const_cast<CallResult&>(cr));
            std::lock_guard<std::mutex> g(s->m);
            s->done = true;
            s->cv.notify_all();
        }), c.chan, 40000, fn, a...);
        std::unique_lock<std::mutex> l(s->m);
        if (!s->cv.wait_for(l, std::chrono::seconds(40), [&] { return s->done; })) fail("callback of '" + fn + "' never called");
    }
}

#ifndef C12_CODEC
template <typename T> void addType(const std::string& name) {
    TypeEntry e;
    e.name = name;
    e.bindTo = [name](Veigar& v) {
        bool ok = v.bind("e_" + name, [name](uint64_t tok, T x) -> T {
            auto& s = Slot<T>::of(name);
            std::lock_guard<std::mutex> g(s.m);
            s.tok = tok;
            s.runs++;
            s.v = std::make_shared<T>(x);
            return x;
        });
        VP_CHECK(ok, "bind failed");
    };
    e.run = [name](Ctx& c, Rng& r, int sc, int style) {
        auto val = std::make_shared<T>(Gen<T>::make(r, sc));
        {
            veigar_msgpack::sbuffer b;
            veigar_msgpack::pack(b, *val);
            if ((int64_t)b.size() + 400 > c.limit) { metric("skipped_too_large"); return; }
            if (b.size() > 60000) { c.big++; metric("values_over_60000_bytes"); }
        }
        uint64_t tok = ++c.tok;
        phase("type " + name);
        auto check = [=](CallResult& cr) {
            if (!cr.isSuccess()) fail("type " + name + ", value " + show(*val) + ": the call failed: " + describe(cr));
            auto& s = Slot<T>::of(name);
            {
                std::lock_guard<std::mutex> g(s.m);
                if (s.tok != tok || !s.v) fail("type " + name + ": the answer came but the function did not run");
                if (!Eq<T>::eq(*s.v, *val)) fail("type " + name + ": sent " + show(*val) + ", the function received " + show(*s.v));
            }
            T back{};
            if (!cr.convertObject(back)) fail("type " + name + ", value " + show(*val) + ": the result does not convert to its own type");
            if (!Eq<T>::eq(back, *val)) fail("type " + name + ": the function returned " + show(*val) + ", the caller received " + show(back));
        };
        callStyle(c, style, "e_" + name, check, tok, *val);
        metric("round_trips");
        label("type " + name);
    };
    types().push_back(e);
}
#else
template <typename T> void addType(const std::string& name);
}
#include "c12_type.h"
namespace c02 {
#endif
void addTypes1();
void addTypes2();
void addTypes3();
void addTypes4();
void addTypes5();
void addTypes6();
void addTypes7();
}  // namespace c02
