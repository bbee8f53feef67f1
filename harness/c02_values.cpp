// C02: arguments and results arrive with the values that were sent.
#include "c02_values.h"
using namespace c02;

void vpInfo(Info& i) {
    i.id = "C02";
    i.watchdogMs = 60000;
    i.rule = "A case is two instances and 10..60 calls: (a) echo calls of a generated value of one of 84 types (boundary integers, any bit pattern of floats, strings and containers with lengths around every length-prefix "
             "boundary, nested and user-defined types), in one of the three call styles, comparing what the function received and what the caller got with what was sent; (b) the matrix of sent type x receiving type (arguments and "
             "results): equal when representable, reported as an error with the function not run otherwise; (c) calls with 0 to 8 arguments of different types; (d) sizes up to and around what the queue can hold. "
             "Non-trivial: at least 3 round trips were compared and one value was over 31 bytes or at a boundary (sizes classes 2 and 3) or a matrix cell was evaluated.";
}

std::vector<TypeEntry>& c02::types() { static std::vector<TypeEntry> t; return t; }

Case vpGenerate(Rng& r, int64_t, bool thorough) {
    Case c;
    bool big = r.chance(1, 4);
    c.cfg["cap"] = big ? r.range(1, 4) : r.range(1, 60);
    c.cfg["size"] = big ? r.range(100000, 700000) : r.range(500, 9000);
    int64_t n = r.range(10, thorough ? 120 : 60);
    for (int64_t i = 0; i < n; i++) {
        switch (r.weighted({10, 4, 3, 2, 1})) {
            case 0: c.ops.push_back(Op("echo", {r.below(1000), (int64_t)(r.next() >> 1), r.weighted({3, 4, 3, big ? 4 : 0}), r.below(3)})); break;
            case 1: c.ops.push_back(Op("cell", {r.below(1000), r.below(1000), (int64_t)(r.next() >> 1)})); break;
            case 2: c.ops.push_back(Op("args", {r.below(10), (int64_t)(r.next() >> 1), r.range(0, 2), r.below(3)})); break;
            case 3: c.ops.push_back(Op("limit", {r.range(-8, 8), r.below(2)})); break;
            default: c.ops.push_back(Op("res", {r.below(1000), (int64_t)(r.next() >> 1)})); break;
        }
    }
    return c;
}

// ---- matrix of sent and receiving types ------------------------------------------------------------------------------
struct Val {
    enum K { INT, BOOL, DBL, STR, BIN, ARR, NIL } k = NIL;
    __int128 i = 0;
    double d = 0;
    std::string s;
    std::vector<int64_t> a;
};
static std::string showVal(const Val& v) {
    switch (v.k) {
        case Val::INT: return v.i < 0 ? strf("%lld", (long long)v.i) : strf("%llu", (unsigned long long)v.i);
        case Val::BOOL: return v.i ? "true" : "false";
        case Val::DBL: return strf("%.17g", v.d);
        case Val::STR: return "str " + hex(v.s, 20);
        case Val::BIN: return "bin " + hex(v.s, 20);
        case Val::ARR: { std::string s = "["; for (auto x : v.a) s += std::to_string(x) + ","; return s + "]"; }
        default: return "nil";
    }
}
template <typename T, typename E = void> struct Conv;
template <typename T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static Val of(T v) { Val x; x.k = Val::INT; x.i = v; return x; }
    // 1: must be accepted with this value, 0: must be refused, -1: either
    static int fits(const Val& v, T& out) {
        if (v.k == Val::DBL) {  // the codec may send integral floats as integers
            if (!(v.d >= -1e20 && v.d <= 1e20) || v.d != floor(v.d)) return 0;
            __int128 i = (__int128)v.d;
            out = (T)i;
            return i >= (__int128)std::numeric_limits<T>::min() && i <= (__int128)std::numeric_limits<T>::max() ? -1 : 0;
        }
        if (v.k != Val::INT) return 0;
        out = (T)v.i;
        return v.i >= (__int128)std::numeric_limits<T>::min() && v.i <= (__int128)std::numeric_limits<T>::max();
    }
};
template <> struct Conv<bool> {
    static Val of(bool v) { Val x; x.k = Val::BOOL; x.i = v; return x; }
    static int fits(const Val& v, bool& out) { if (v.k != Val::BOOL) return 0; out = v.i != 0; return 1; }
};
template <> struct Conv<double> {
    static Val of(double v) { Val x; x.k = Val::DBL; x.d = v; return x; }
    static int fits(const Val& v, double& out) {
        if (v.k == Val::DBL) { out = v.d; return 1; }
        if (v.k == Val::INT) { out = (double)v.i; return 1; }
        return 0;
    }
};
template <> struct Conv<std::string> {
    static Val of(const std::string& v) { Val x; x.k = Val::STR; x.s = v; return x; }
    static int fits(const Val& v, std::string& out) { if (v.k != Val::STR && v.k != Val::BIN) return 0; out = v.s; return 1; }
};
template <> struct Conv<std::vector<char>> {
    static Val of(const std::vector<char>& v) { Val x; x.k = Val::BIN; x.s.assign(v.begin(), v.end()); return x; }
    static int fits(const Val& v, std::vector<char>& out) {
        if (v.k == Val::ARR) return -1;
        if (v.k != Val::STR && v.k != Val::BIN) return 0;
        out.assign(v.s.begin(), v.s.end());
        return 1;
    }
};
template <typename E> struct ConvVec {
    static Val of(const std::vector<E>& v) { Val x; x.k = Val::ARR; x.a.assign(v.begin(), v.end()); return x; }
    static int fits(const Val& v, std::vector<E>& out) {
        if (v.k != Val::ARR) return 0;
        out.clear();
        for (auto e : v.a) {
            if (e < (int64_t)std::numeric_limits<E>::min() || e > (int64_t)std::numeric_limits<E>::max()) return 0;
            out.push_back((E)e);
        }
        return 1;
    }
};
template <> struct Conv<std::vector<int16_t>> : ConvVec<int16_t> {};
template <> struct Conv<std::vector<int64_t>> : ConvVec<int64_t> {};

struct MType {
    std::string name;
    std::function<void(Veigar&)> bindTo;
    // sends a value to function fn; returns what was sent and the result
    std::function<void(Ctx&, Rng&, const std::string&, Val&, CallResult&)> send;
    // what the function m_<name> must do with the value; compares with what it received
    std::function<int(const Val&)> expect;
    std::function<int(uint64_t)> ran;                       // times the receiver ran with this token
    std::function<bool(const Val&)> received;               // equals
    std::function<void(CallResult&, const Val&)> convert;   // result conversion to this type
};
static std::vector<MType>& mtypes() { static std::vector<MType> m; return m; }
template <typename T> struct Small { static T make(Rng& r) { return Gen<T>::make(r, 1); } };
template <typename T> struct Small<std::vector<T>> { static std::vector<T> make(Rng& r) { std::vector<T> v; for (int64_t n = r.below(6); n > 0; n--) v.push_back(Gen<T>::make(r, 0)); return v; } };
template <typename T> void addM(const std::string& name) {
    MType m;
    m.name = name;
    m.bindTo = [name](Veigar& v) {
        v.bind("m_" + name, [name](uint64_t tok, T x) -> T {
            auto& s = Slot<T>::of("m" + name);
            std::lock_guard<std::mutex> g(s.m);
            s.tok = tok;
            s.runs++;
            s.v = std::make_shared<T>(x);
            return x;
        });
    };
    m.send = [name](Ctx& c, Rng& r, const std::string& fn, Val& sent, CallResult& cr) {
        T v = Small<T>::make(r);
        sent = Conv<T>::of(v);
        cr = c.from->syncCall(c.chan, 40000, fn, c.tok, v);
    };
    m.expect = [](const Val& v) { T t{}; return Conv<T>::fits(v, t); };
    m.ran = [name](uint64_t tok) { auto& s = Slot<T>::of("m" + name); std::lock_guard<std::mutex> g(s.m); return s.tok == tok ? 1 : 0; };
    m.received = [name](const Val& v) { T t{}; auto& s = Slot<T>::of("m" + name); std::lock_guard<std::mutex> g(s.m); return Conv<T>::fits(v, t) == 1 && s.v && Eq<T>::eq(*s.v, t); };
    m.convert = [name](CallResult& cr, const Val& v) {
        T want{}, got{};
        int e = Conv<T>::fits(v, want);
        bool ok;
        try {
            ok = cr.convertObject(got);
        } catch (...) {
            fail("convertObject to " + name + " threw on " + showVal(v));
        }
        if (e == 1 && (!ok || !Eq<T>::eq(got, want))) fail("result " + showVal(v) + " does not convert to " + name + (ok ? " with its value, but to " + show(got) : ""));
        if (e == -1 && ok && v.k == Val::DBL && !Eq<T>::eq(got, want)) fail("result " + showVal(v) + " was converted to " + name + " giving " + show(got));
        if (e == 0 && ok) fail("result " + showVal(v) + " was converted to " + name + " giving " + show(got));
    };
    mtypes().push_back(m);
}

// ---- calls with many arguments -----------------------------------------------------------------------------------------
static std::mutex gM;
static std::vector<std::string> gSeen;
static void seen(std::vector<std::string> v) { std::lock_guard<std::mutex> g(gM); gSeen = v; }
typedef std::vector<int32_t> VI;
typedef std::map<std::string, int64_t> MS;
static void bindArgs(Veigar& v) {
    v.bind("a0", []() { seen({"0"}); });
    v.bind("a0r", []() -> std::string { seen({"0r"}); return "zero"; });
    v.bind("a1", [](std::string a) { seen({show(a)}); });
    v.bind("a2", [](std::string a, std::string b) -> std::string { seen({show(a), show(b)}); return a + "|" + b; });
    v.bind("a3", [](int64_t a, std::string b, int64_t c) { seen({show(a), show(b), show(c)}); return std::make_tuple(c, b, a); });
    v.bind("a4", [](bool a, VI b, bool c, VI d) { seen({show(a), show(b), show(c), show(d)}); });
    v.bind("a6", [](int8_t a, uint16_t b, std::string c, double d, bool e, MS f) { seen({show(a), show(b), show(c), show(d), show(e), show(f)}); return f; });
    v.bind("a8", [](std::string a, std::string b, std::string c, std::string d, uint64_t e, int64_t f, uint8_t g, int8_t h) { seen({show(a), show(b), show(c), show(d), show(e), show(f), show(g), show(h)}); return std::vector<std::string>{d, c, b, a}; });
    v.bind("acs", [](const std::string& a, const std::string& b) -> std::string { seen({show(a), show(b)}); return b; });
    v.bind("len", [](const std::string& a) -> uint64_t { return a.size(); });
    v.bind("make", [](uint64_t n) -> std::string { return payload(n, (int64_t)n); });
}
static void runArgs(Ctx& c, int which, Rng& r, int sc, int style) {
    auto S = [&] { return Gen<std::string>::make(r, c.limit < 4000 ? 0 : std::min(sc, 1)); };
    std::vector<std::string> exp;
    auto common = [&](CallResult& cr, const char* fn) {
        if (!cr.isSuccess()) fail(strf("call of %s failed: %s", fn, describe(cr).c_str()));
        std::lock_guard<std::mutex> g(gM);
        if (gSeen != exp) fail(strf("%s received other arguments than were sent (%zu of %zu)", fn, gSeen.size(), exp.size()));
    };
    { std::lock_guard<std::mutex> g(gM); gSeen.clear(); }
    phase(strf("args %d", which));
    auto cmp = [&](auto& cr, auto want, const char* fn) {
        decltype(want) got{};
        if (!cr.convertObject(got) || got != want) fail(strf("result of %s: expected %s, got %s", fn, show(want).c_str(), show(got).c_str()));
    };
    switch (which) {
        case 0: {
            exp = {"0"};
            callStyle(c, style, "a0", [&](CallResult& cr) {
                common(cr, "a0");
                int x = 5;
                std::string s = "q";
                if (cr.convertObject(x) || cr.convertObject(s)) fail("the result of a function without result converts to a value");
            });
            break;
        }
        case 1: exp = {"0r"}; callStyle(c, style, "a0r", [&](CallResult& cr) { common(cr, "a0r"); cmp(cr, std::string("zero"), "a0r"); }); break;
        case 2: { auto a = S(); exp = {show(a)}; callStyle(c, style, "a1", [&](CallResult& cr) { common(cr, "a1"); }, a); break; }
        case 3: { auto a = S(), b = S(); exp = {show(a), show(b)}; callStyle(c, style, "a2", [&](CallResult& cr) { common(cr, "a2"); cmp(cr, a + "|" + b, "a2"); }, a, b); break; }
        case 4: { int64_t a = Gen<int64_t>::make(r, 0), d = Gen<int64_t>::make(r, 0); auto b = S(); exp = {show(a), show(b), show(d)};
            callStyle(c, style, "a3", [&](CallResult& cr) { common(cr, "a3"); cmp(cr, std::make_tuple(d, b, a), "a3"); }, a, b, d); break; }
        case 5: { bool a = r.chance(1, 2), d = r.chance(1, 2); VI b = Gen<VI>::make(r, c.limit < 120000 ? 0 : 1), e = Gen<VI>::make(r, 0); exp = {show(a), show(b), show(d), show(e)};
            callStyle(c, style, "a4", [&](CallResult& cr) { common(cr, "a4"); }, a, b, d, e); break; }
        case 6: { int8_t a = Gen<int8_t>::make(r, 0); uint16_t b = Gen<uint16_t>::make(r, 0); auto s = S(); double d = Gen<double>::make(r, 0); bool e = r.chance(1, 2); MS f = Gen<MS>::make(r, c.limit < 120000 ? 0 : 1);
            exp = {show(a), show(b), show(s), show(d), show(e), show(f)}; callStyle(c, style, "a6", [&](CallResult& cr) { common(cr, "a6"); cmp(cr, f, "a6"); }, a, b, s, d, e, f); break; }
        case 7: { auto a = S(), b = S(), d = S(), e = S(); uint64_t f = Gen<uint64_t>::make(r, 0); int64_t g = Gen<int64_t>::make(r, 0); uint8_t h = Gen<uint8_t>::make(r, 0); int8_t i = Gen<int8_t>::make(r, 0);
            exp = {show(a), show(b), show(d), show(e), show(f), show(g), show(h), show(i)};
            callStyle(c, style, "a8", [&](CallResult& cr) { common(cr, "a8"); cmp(cr, std::vector<std::string>{e, d, b, a}, "a8"); }, a, b, d, e, f, g, h, i); break; }
        case 8: { exp = {show(std::string("literal")), show(std::string(""))}; callStyle(c, style, "acs", [&](CallResult& cr) { common(cr, "acs"); cmp(cr, std::string(), "acs"); }, "literal", ""); break; }
        default: { std::string k = S(); exp = {show(std::string("x")), show(k)}; callStyle(c, style, "acs", [&](CallResult& cr) { common(cr, "acs"); cmp(cr, k, "acs"); }, "x", k); break; }
    }
    metric("argument_lists");
}

// A call message of exactly the size of the queue plus delta, or an answer around it.
static void runLimit(Ctx& c, int64_t delta, int dir) {
    phase("limit");
    if (dir == 0) {
        const std::string id0 = [&] { auto a = c.from->asyncCall(c.chan, 40000, "len", std::string("x")); a->second.wait(); c.from->releaseCall(a->first); return a->first; }();
        auto sizeOf = [&](int64_t n) {
            veigar_msgpack::sbuffer b;
            std::string id = id0;
            veigar_msgpack::pack(b, std::make_tuple(0, id, c.from->channelName(), std::string("len"), std::make_tuple(std::string((size_t)n, 'x'))));
            return (int64_t)b.size();
        };
        int64_t n = std::max<int64_t>(0, c.limit - sizeOf(0) - 8);
        while (n > 0 && sizeOf(n) > c.limit + delta) n--;
        while (sizeOf(n + 1) <= c.limit + delta) n++;
        auto a = c.from->asyncCall(c.chan, 40000, "len", std::string((size_t)n, 'y'));
        if (a->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) fail(strf("a call of %lld bytes to a queue of %lld bytes never completed", (long long)sizeOf(n), (long long)c.limit));
        CallResult cr = a->second.get();
        c.from->releaseCall(a->first);
        int64_t real = sizeOf(n) - (int64_t)id0.size() + (int64_t)a->first.size();
        if (real <= c.limit) {
            uint64_t got = 0;
            if (!cr.isSuccess()) fail(strf("a call of %lld bytes to a queue of %lld bytes failed: %s", (long long)real, (long long)c.limit, describe(cr).c_str()));
            if (!cr.convertObject(got) || got != (uint64_t)n) fail("the length of a large argument changed");
            metric("full_size_calls");
        } else if (cr.isSuccess()) fail(strf("a call of %lld bytes to a queue of %lld bytes was reported as successful", (long long)real, (long long)c.limit));
    } else {
        // the answer is [1, id, nil, result]
        int64_t n = std::max<int64_t>(0, c.limit - 160 + delta * 20);
        CallResult cr = c.from->syncCall(c.chan, 40000, "make", (uint64_t)n);
        if (n + 120 <= c.limit && !cr.isSuccess()) fail(strf("an answer with %lld bytes to a queue of %lld bytes failed: %s", (long long)n, (long long)c.limit, describe(cr).c_str()));
        if (cr.isSuccess()) {
            std::string got;
            if (!cr.convertObject(got) || got != payload((uint64_t)n, n)) fail(strf("an answer with %lld bytes arrived altered (%zu bytes)", (long long)n, got.size()));
            metric("full_size_answers");
        } else if (cr.errorMessage.empty()) fail("a failed call carries no explanation");
    }
}

bool vpValid(const Case& c) { return c.get("cap") >= 1 && c.get("size") >= 500; }

void vpRun(const Case& c) {
    addTypes1();
    addTypes2();
    addTypes3();
    addTypes4();
    addTypes5();
    addTypes6();
    addTypes7();
    addM<int8_t>("int8"); addM<uint8_t>("uint8"); addM<int16_t>("int16"); addM<uint16_t>("uint16"); addM<int32_t>("int32"); addM<uint32_t>("uint32"); addM<int64_t>("int64"); addM<uint64_t>("uint64");
    addM<bool>("bool"); addM<double>("double"); addM<std::string>("string"); addM<std::vector<char>>("vector<char>"); addM<std::vector<int16_t>>("vector<int16>"); addM<std::vector<int64_t>>("vector<int64>");
    Veigar a, b;
    a.setTimeoutOfRWLock(20000);
    b.setTimeoutOfRWLock(20000);
    for (auto& t : types()) t.bindTo(b);
    for (auto& t : mtypes()) t.bindTo(b);
    bindArgs(b);
    phase("init");
    VP_CHECK(a.init(prefix() + "a", (uint32_t)c.get("cap"), (uint32_t)c.get("size")), "init failed");
    VP_CHECK(b.init(prefix() + "b", (uint32_t)c.get("cap"), (uint32_t)c.get("size")), "init failed");
    Ctx x;
    x.from = &a;
    x.to = &b;
    x.chan = prefix() + "b";
    x.limit = c.get("cap") * c.get("size");
    int trips = 0, nt = 0;
    for (auto& o : c.ops) {
        Rng r((uint64_t)(o.a.size() ? o.a[o.k == "cell" ? 2 : 1] : 1));
        if (o.k == "echo") {
            types()[(size_t)(o.at(0) % (int64_t)types().size())].run(x, r, (int)o.at(2), (int)o.at(3));
            trips++;
            if (o.at(2) >= 2) nt++;
        } else if (o.k == "cell") {
            auto& s = mtypes()[(size_t)(o.at(0) % (int64_t)mtypes().size())];
            auto& t = mtypes()[(size_t)(o.at(1) % (int64_t)mtypes().size())];
            x.tok++;
            Val v;
            CallResult cr;
            phase("send " + s.name + " to " + t.name);
            s.send(x, r, "m_" + t.name, v, cr);
            int e = t.expect(v);
            if (e == 1) {
                if (!cr.isSuccess()) fail("argument " + showVal(v) + " of type " + s.name + " for a parameter of type " + t.name + ": " + describe(cr));
                if (!t.ran(x.tok)) fail("the function did not run");
                if (!t.received(v)) fail("argument " + showVal(v) + " of type " + s.name + " arrived altered at a parameter of type " + t.name);
            } else if (e == 0) {
                if (cr.isSuccess()) fail("argument " + showVal(v) + " of type " + s.name + " does not fit a parameter of type " + t.name + " but the call succeeded");
                if (t.ran(x.tok)) fail("argument " + showVal(v) + " of type " + s.name + " does not fit a parameter of type " + t.name + " but the function ran");
                if (cr.errorMessage.empty()) fail("a failed call carries no explanation");
                metric("refused_cells");
            }
            metric("matrix_cells");
            nt++;
        } else if (o.k == "res") {
            auto& s = mtypes()[(size_t)(o.at(0) % (int64_t)mtypes().size())];
            x.tok++;
            Val v;
            CallResult cr;
            s.send(x, r, "m_" + s.name, v, cr);
            if (!cr.isSuccess()) fail("argument " + showVal(v) + " of type " + s.name + ": " + describe(cr));
            for (auto& t : mtypes()) t.convert(cr, v);
            metric("result_conversions", (int64_t)mtypes().size());
            nt++;
        } else if (o.k == "args") {
            runArgs(x, (int)o.at(0), r, (int)o.at(2), (int)o.at(3));
            trips++;
        } else if (o.k == "limit") {
            runLimit(x, o.at(0), (int)o.at(1));
        }
    }
    phase("uninit");
    a.uninit();
    b.uninit();
    if (trips >= 3 && nt) nontrivial();
}
