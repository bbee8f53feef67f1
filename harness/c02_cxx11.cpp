// C02 (and the calls of C03), compiled as C++11, the default of the library: functions of every shape, with 0 to 10 parameters.
#include "rpc.h"
#include <string.h>
#include <array>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C02";
    i.watchdogMs = 60000;
    i.rule = "C++11: a case is two instances and 10..80 calls of functions of 24 shapes (0 to 10 parameters by value, reference and constant reference, with and without result; lambdas, function objects, function pointers, std::function) "
             "with generated arguments in the three call styles; what the function received and what the caller got is compared with what was sent; calls with one argument too few or too many are refused and run nothing. "
             "Non-trivial: at least 8 calls of 4 functions.";
}

namespace {
struct Rec {
    int32_t a; std::string b; std::vector<double> c;
    Rec() : a(0) {}
    bool operator==(const Rec& o) const { return a == o.a && b == o.b && c == o.c; }
    MSGPACK_DEFINE(a, b, c);
};
struct RecMap {
    uint64_t id; std::map<std::string, Rec> items;
    RecMap() : id(0) {}
    bool operator==(const RecMap& o) const { return id == o.id && items == o.items; }
    MSGPACK_DEFINE_MAP(id, items);
};
enum class Col : int8_t { R = -1, G = 0, B = 100 };
}  // namespace
MSGPACK_ADD_ENUM(Col)

namespace {
// ---- generated values and their text -------------------------------------------------------------------------------
template <typename T, typename E = void> struct G;
template <typename T> struct G<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T make(Rng& r) {
        switch (r.below(4)) {
            case 0: return std::numeric_limits<T>::max();
            case 1: return std::numeric_limits<T>::min();
            case 2: return (T)r.range(-200, 300);
            default: return (T)(r.next() >> r.below(64));
        }
    }
    static std::string show(T v) { return std::to_string((long long)v) + (v > 0 && (uint64_t)v > INT64_MAX ? "u" : ""); }
};
template <> struct G<bool> { static bool make(Rng& r) { return r.chance(1, 2); } static std::string show(bool v) { return v ? "T" : "F"; } };
template <> struct G<double> { static double make(Rng& r) { return (double)r.range(-1000000, 1000000) / 8; } static std::string show(double v) { return strf("%.17g", v); } };
template <> struct G<float> { static float make(Rng& r) { return (float)r.range(-100000, 100000) / 4; } static std::string show(float v) { return strf("%.9gf", v); } };
template <> struct G<Col> { static Col make(Rng& r) { return r.chance(1, 3) ? Col::R : r.chance(1, 2) ? Col::G : Col::B; } static std::string show(Col v) { return "C" + std::to_string((int)v); } };
template <> struct G<std::string> {
    static std::string make(Rng& r) { return r.bytes((size_t)(r.chance(1, 6) ? r.range(20, 300) : r.below(40)), 0); }
    static std::string show(const std::string& v) { return "s" + std::to_string(v.size()) + hex(v, 400); }
};
template <typename A, typename B> struct G<std::pair<A, B>> {
    static std::pair<A, B> make(Rng& r) { A a = G<A>::make(r); return std::pair<A, B>(a, G<B>::make(r)); }
    static std::string show(const std::pair<A, B>& v) { return "(" + G<A>::show(v.first) + "," + G<B>::show(v.second) + ")"; }
};
template <typename S> struct Seq {
    typedef typename S::value_type T;
    static S make(Rng& r) { S v; for (int64_t n = r.below(5); n > 0; n--) v.insert(v.end(), G<T>::make(r)); return v; }
    static std::string show(const S& v) { std::string s = "["; for (typename S::const_iterator i = v.begin(); i != v.end(); ++i) s += G<T>::show(*i) + ","; return s + "]"; }
};
template <typename T> struct G<std::vector<T>> : Seq<std::vector<T>> {};
template <typename T> struct G<std::list<T>> : Seq<std::list<T>> {};
template <typename T> struct G<std::set<T>> : Seq<std::set<T>> {};
template <typename K, typename V> struct G<std::map<K, V>> {
    static std::map<K, V> make(Rng& r) { std::map<K, V> m; for (int64_t n = r.below(4); n > 0; n--) { K k = G<K>::make(r); m[k] = G<V>::make(r); } return m; }
    static std::string show(const std::map<K, V>& v) { std::string s = "{"; for (auto& x : v) s += G<K>::show(x.first) + ":" + G<V>::show(x.second) + ","; return s + "}"; }
};
template <typename T, size_t N> struct G<std::array<T, N>> {
    static std::array<T, N> make(Rng& r) { std::array<T, N> v; for (auto& x : v) x = G<T>::make(r); return v; }
    static std::string show(const std::array<T, N>& v) { std::string s = "<"; for (auto& x : v) s += G<T>::show(x) + ","; return s + ">"; }
};
template <size_t I, typename T> struct TupShow { static std::string go(const T& t) { return TupShow<I - 1, T>::go(t) + G<typename std::decay<typename std::tuple_element<I - 1, T>::type>::type>::show(std::get<I - 1>(t)) + ";"; } };
template <typename T> struct TupShow<0, T> { static std::string go(const T&) { return std::string(); } };
template <typename... A> struct G<std::tuple<A...>> {
    static std::tuple<A...> make(Rng& r) { return std::tuple<A...>{G<A>::make(r)...}; }
    static std::string show(const std::tuple<A...>& t) { return "t(" + TupShow<sizeof...(A), std::tuple<A...>>::go(t) + ")"; }
};
template <> struct G<Rec> {
    static Rec make(Rng& r) { Rec x; x.a = G<int32_t>::make(r); x.b = G<std::string>::make(r); x.c = G<std::vector<double>>::make(r); return x; }
    static std::string show(const Rec& x) { return "R(" + G<int32_t>::show(x.a) + G<std::string>::show(x.b) + G<std::vector<double>>::show(x.c) + ")"; }
};
template <> struct G<RecMap> {
    static RecMap make(Rng& r) { RecMap x; x.id = G<uint64_t>::make(r); x.items = G<std::map<std::string, Rec>>::make(r); return x; }
    static std::string show(const RecMap& x) { return "M(" + G<uint64_t>::show(x.id) + G<std::map<std::string, Rec>>::show(x.items) + ")"; }
};
template <typename... A> std::string text(const A&... a) { return TupShow<sizeof...(A), std::tuple<const A&...>>::go(std::tuple<const A&...>(a...)); }

// ---- what the functions received -----------------------------------------------------------------------------------
std::mutex gM;
std::vector<std::string> gSeen;
uint64_t hashOf(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull; return h; }
uint64_t got(const std::string& name, const std::string& args) {
    std::lock_guard<std::mutex> g(gM);
    gSeen.push_back(name + ":" + args);
    return hashOf(gSeen.back());
}
template <typename R> struct Res { static R of(uint64_t h) { Rng r(h); return G<R>::make(r); } };
template <> struct Res<void> { static void of(uint64_t) {} };

template <size_t... I> struct Idx {};
template <size_t N, size_t... I> struct MakeIdx : MakeIdx<N - 1, N - 1, I...> {};
template <size_t... I> struct MakeIdx<0, I...> { typedef Idx<I...> type; };

struct Env {
    Veigar* from;
    std::string to;
    int style;
};
template <typename... A> void invoke(const Env& e, const std::string& fn, std::function<void(CallResult&)> check, const A&... a) {
    if (e.style == 0) {
        CallResult cr = e.from->syncCall(e.to, 20000, fn, a...);
        check(cr);
    } else if (e.style == 1) {
        auto p = e.from->asyncCall(e.to, 20000, fn, a...);
        if (p->second.wait_for(std::chrono::seconds(25)) != std::future_status::ready) fail("a call of " + fn + " never completed");
        CallResult cr = p->second.get();
        e.from->releaseCall(p->first);
        check(cr);
    } else {
        std::mutex m;
        std::condition_variable cv;
        int n = 0;
        e.from->asyncCall([&](const CallResult& cr) {
            check(const_cast<CallResult&>(cr));
            std::lock_guard<std::mutex> g(m);
            n++;
            cv.notify_all();
        }, e.to, 20000, fn, a...);
        std::unique_lock<std::mutex> ul(m);
        if (!cv.wait_for(ul, std::chrono::seconds(25), [&] { return n > 0; })) fail("a call of " + fn + " never completed");
    }
}
template <typename R> struct CheckRes {
    static void of(CallResult& cr, uint64_t h, const std::string& what) {
        R want = Res<R>::of(h), have = R();
        if (!cr.convertObject(have)) fail(what + ": the result does not convert to its type");
        if (G<R>::show(have) != G<R>::show(want)) fail(what + ": the result " + G<R>::show(have) + " was received instead of " + G<R>::show(want));
    }
};
template <> struct CheckRes<void> {
    static void of(CallResult& cr, uint64_t, const std::string& what) {
        if (!cr.obj.get().is_nil()) fail(what + ": a function without a result gave one");
        int x = 0;
        if (cr.convertObject(x)) fail(what + ": the result of a function without one converts to a number");
    }
};
void expectSeen(const std::vector<std::string>& want, const std::string& what) {
    std::lock_guard<std::mutex> g(gM);
    if (gSeen != want) fail(what + strf(": %zu executions instead of %zu, ", gSeen.size(), want.size()) + (gSeen.empty() ? "" : "the function received " + gSeen[0]) + (want.empty() ? "" : ", sent " + want[0]));
    gSeen.clear();
}

struct Fn {
    std::string name;
    std::function<void(Veigar&)> bind;
    std::function<void(Rng&, const Env&, int)> run;
};
std::vector<Fn> fns;

template <typename R, typename... D> struct Caller {
    template <size_t... I> static void go(Rng& r, const Env& e, const std::string& name, int mode, Idx<I...>) {
        std::tuple<D...> t{G<D>::make(r)...};
        const std::string sent = text(std::get<I>(t)...);
        const std::string what = strf("%s, style %d, mode %d", name.c_str(), e.style, mode);
        (void)t;
        if (mode == 1) {   // one argument too many
            invoke(e, name, [&](CallResult& cr) { if (cr.isSuccess() || cr.errorMessage.empty()) fail(what + ": an additional argument is not refused"); }, std::get<I>(t)..., r.next());
            expectSeen({}, what);
        } else if (mode == 2 && sizeof...(D) > 0) {   // one too few
            few(r, e, name, what, t, typename MakeIdx<(sizeof...(D) > 0 ? sizeof...(D) - 1 : 0)>::type());
            expectSeen({}, what);
        } else {
            invoke(e, name, [&](CallResult& cr) {
                if (!cr.isSuccess()) fail(what + " failed: " + describe(cr) + ", arguments " + sent);
                CheckRes<R>::of(cr, hashOf(name + ":" + sent), what);
            }, std::get<I>(t)...);
            expectSeen({name + ":" + sent}, what);
        }
    }
    template <size_t... I> static void few(Rng&, const Env& e, const std::string& name, const std::string& what, std::tuple<D...>& t, Idx<I...>) {
        (void)t;
        invoke(e, name, [&](CallResult& cr) { if (cr.isSuccess() || cr.errorMessage.empty()) fail(what + ": a missing argument is not refused"); }, std::get<I>(t)...);
    }
};
template <typename R, typename... P, typename F> void reg(const std::string& name, F f) {
    Fn x;
    x.name = name;
    x.bind = [name, f](Veigar& v) { VP_CHECK(v.bind(name, f), "bind of %s", name.c_str()); };
    x.run = [name](Rng& r, const Env& e, int mode) { Caller<R, typename std::decay<P>::type...>::go(r, e, name, mode, typename MakeIdx<sizeof...(P)>::type()); };
    fns.push_back(x);
}
// a lambda with exactly these parameter types
template <typename R, typename... P> void lam(const std::string& name) {
    reg<R, P...>(name, [name](P... a) -> R { return Res<R>::of(got(name, text(a...))); });
}
template <typename R, typename... P> struct Functor {
    std::string name;
    R operator()(P... a) const { return Res<R>::of(got(name, text(a...))); }
};
int64_t freeFn(int64_t a, const std::string& b, bool c) { return Res<int64_t>::of(got("free", text(a, b, c))); }
void freeVoid(std::string a) { got("freev", text(a)); }
std::string freeZero() { return Res<std::string>::of(got("free0", "")); }

typedef std::vector<int32_t> VI;
typedef std::map<std::string, int64_t> MS;
void makeFns() {
    if (!fns.empty()) return;
    lam<void>("v0");
    lam<std::string>("s0");
    lam<RecMap>("m0");
    lam<void, std::string>("v1");
    lam<uint64_t, uint64_t>("u1");
    lam<std::vector<std::string>, const VI&>("l1");
    lam<std::string, std::string&, int8_t>("r2");
    lam<std::pair<std::string, int>, const std::string&, const std::string&>("p2");
    lam<void, double, VI>("v2");
    lam<std::tuple<int64_t, std::string, int64_t>, int64_t, std::string, int64_t>("t3");
    lam<Rec, Rec, const RecMap&, Col>("e3");
    lam<MS, bool, VI, bool, VI>("m4");
    lam<void, const MS&, std::set<std::string>, std::list<int>, std::array<int, 3>>("v4");
    lam<std::vector<Rec>, std::vector<Rec>, std::pair<int, std::string>, std::tuple<bool, double>, float, uint8_t>("w5");
    lam<double, int8_t, uint16_t, std::string, double, bool, MS>("d6");
    lam<std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string>("s7");
    lam<std::vector<int64_t>, std::string, std::string&, const std::string&, std::string, uint64_t, int64_t, uint8_t, int8_t>("i8");
    lam<Col, int, int, int, int, int, int, int, int, int, int>("c10");
    lam<void, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, bool>("v9");
    reg<int64_t, int64_t, const std::string&, bool>("free", &freeFn);
    reg<void, std::string>("freev", &freeVoid);
    reg<std::string>("free0", &freeZero);
    reg<std::string, int, const Rec&>("functor", Functor<std::string, int, const Rec&>{"functor"});
    {
        std::function<VI(std::string, VI)> f = [](std::string a, VI b) { return Res<VI>::of(got("stdfn", text(a, b))); };
        reg<VI, std::string, VI>("stdfn", f);
    }
}
}  // namespace

Case vpGenerate(Rng& r, int64_t, bool thorough) {
    Case c;
    c.cfg["cap"] = r.range(1, 30);
    c.cfg["size"] = r.range(8000, 20000);
    for (int64_t n = r.range(10, thorough ? 160 : 80); n > 0; n--) c.ops.push_back(Op("call", {r.below(1000), (int64_t)(r.next() >> 1), r.weighted({6, 1, 1}), r.below(3), r.below(2)}));
    return c;
}
bool vpValid(const Case& c) { return c.get("cap") >= 1 && c.get("size") >= 8000; }

void vpRun(const Case& c) {
    makeFns();
    Veigar a, b;
    a.setTimeoutOfRWLock(20000);
    b.setTimeoutOfRWLock(20000);
    for (auto& f : fns) { f.bind(a); f.bind(b); }
    VP_CHECK(a.init(prefix() + "a", (uint32_t)c.get("cap"), (uint32_t)c.get("size")) && b.init(prefix() + "b", (uint32_t)c.get("cap"), (uint32_t)c.get("size")), "init failed");
    std::set<std::string> used;
    int n = 0;
    for (auto& o : c.ops) {
        n++;
        Fn& f = fns[(size_t)(o.at(0) % (int64_t)fns.size())];
        phase(strf("call %d of %s", n, f.name.c_str()));
        Rng r((uint64_t)o.at(1));
        Env e;
        e.from = &a;
        e.to = prefix() + (o.at(4) ? "b" : "a");
        e.style = (int)(o.at(3) % 3);
        f.run(r, e, (int)(o.at(2) % 3));
        used.insert(f.name);
    }
    a.uninit();
    b.uninit();
    metric("calls", n);
    if (n >= 8 && used.size() >= 4) nontrivial();
}
