// C03: every failure is reported in the call's result, and only there.
#include "rpc.h"
#include "wrap.h"
#include <string.h>
using namespace vp;
using namespace rpc;
typedef veigar_msgpack::object Obj;

void vpInfo(Info& i) {
    i.id = "C03";
    i.watchdogMs = 60000;
    i.rule = "A case is 4..50 calls of any style from an instance, most of which cannot be carried out (unknown function, wrong number or types of arguments, functions and packers and converters that throw all kinds of things, "
             "channels nobody serves or that went away, calls and answers larger than the queue, uninitialised callers, callbacks that throw), alone or several at once, while another thread keeps making correct calls on the same channels. "
             "Non-trivial: at least 3 failing calls of 2 kinds and 2 correct ones.";
}

namespace {
enum { UNKNOWN, ARGS, THROWS, NOBODY, BIGCALL, BIGANSWER, UNINIT, PACKTHROWS, RESULTTHROWS, CONVTHROWS, CBTHROWS, NULLCB, GOOD, WENTAWAY, BIGERROR, GROUP, STORM, KINDS };
const char* kKind[] = {"unknown function", "arguments", "throwing function", "nobody's channel", "too large call", "too large answer", "uninitialised caller", "throwing packer", "throwing result", "throwing converter",
                       "throwing callback", "no callback", "correct call", "closed channel", "long error text", "several at once", "exceptions at the same moment"};
// parameter kinds of the functions with checked arguments
const char* kSigs[] = {"", "i", "s", "is", "svb", "d", "m", "iii", "bd", "isvbdm"};
const int kSigNum = 10;

struct Odd {  // throws while it is packed, turned into an object or converted
    int kind = 0;
    void boom() const {
        switch (kind) {
            case 1: throw std::runtime_error("odd");
            case 2: throw 42;
            case 3: throw "text";
            case 4: throw std::bad_alloc();
            case 5: throw std::string("string");
            case 6: throw veigar_msgpack::type_error();
            case 7: { struct Local { int x; }; throw Local{1}; }
            case 8: throw std::runtime_error("");
            default: break;
        }
    }
    template <typename P>
    void msgpack_pack(P& pk) const { pk.pack_array(1); boom(); pk.pack(kind); }
    void msgpack_unpack(Obj const& o) {
        if (o.type != veigar_msgpack::type::ARRAY || o.via.array.size != 1) throw veigar_msgpack::type_error();
        kind = o.via.array.ptr[0].as<int>() % 100;
        boom();
    }
    template <typename O>
    void msgpack_object(O* o, veigar_msgpack::zone& z) const {
        o->type = veigar_msgpack::type::ARRAY;
        o->via.array.ptr = (Obj*)z.allocate_align(sizeof(Obj), MSGPACK_ZONE_ALIGNOF(Obj));
        o->via.array.size = 1;
        boom();
        o->via.array.ptr[0] = Obj(kind, z);
    }
};
}  // namespace

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["cap"] = r.range(4, 60);
    c.cfg["size"] = r.pick(std::vector<int64_t>{256, 1000, 5000});
    c.cfg["tcap"] = r.range(4, 60);
    c.cfg["tsize"] = r.pick(std::vector<int64_t>{256, 1000, 5000});
    c.cfg["bg"] = r.chance(2, 3);
    c.cfg["perturb"] = r.chance(1, 3) ? r.range(5, 150) : 0;
    int64_t n = r.range(4, thorough ? 80 : 50);
    for (int64_t i = 0; i < n; i++) {
        int kind = r.weighted({3, 9, 4, 2, 2, 2, 2, 2, 2, 2, 2, 1, 5, 1, 2, 1, 1});
        // kind, style, parameter, seed
        c.ops.push_back(Op("call", {kind, r.below(3), r.below(1000), (int64_t)(r.next() >> 8), r.chance(1, 3) ? 1 : 0}));
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("cap") >= 4 && c.get("tcap") >= 4 && c.get("size") >= 256 && c.get("tsize") >= 256; }

namespace {
std::mutex mu;
std::map<std::string, int> execs;     // by function and arguments
std::atomic<int> execTotal{0};
std::string S(int v) { return "i" + std::to_string(v); }
std::string S(const std::string& v) { return "s" + std::to_string(v.size()) + ":" + hex(v, 30); }
std::string S(bool v) { return v ? "b1" : "b0"; }
std::string S(double v) { return strf("d%.17g", v); }
std::string S(const std::vector<int>& v) { std::string r = "v"; for (int x : v) r += std::to_string(x) + ","; return r; }
std::string S(const std::map<std::string, int>& m) { std::string r = "m"; for (auto& k : m) r += hex(k.first, 10) + "=" + std::to_string(k.second) + ","; return r; }
std::string join() { return ""; }
template <typename A, typename... R>
std::string join(const A& a, const R&... r) { return S(a) + ";" + join(r...); }
template <typename... A>
std::string ran(const char* fn, const A&... a) {
    std::string k = std::string(fn) + "(" + join(a...) + ")";
    execTotal++;
    std::lock_guard<std::mutex> lg(mu);
    execs[k]++;
    return k;
}
typedef std::vector<int> VI;
typedef std::map<std::string, int> MSI;

void bindAll(Veigar& v) {
    bool ok = v.bind("sig_", [] { return ran("sig_"); });
    ok &= v.bind("sig_i", [](int a) { return ran("sig_i", a); });
    ok &= v.bind("sig_s", [](std::string a) { ran("sig_s", a); });
    ok &= v.bind("sig_is", [](int a, const std::string& b) { return ran("sig_is", a, b); });
    ok &= v.bind("sig_svb", [](std::string a, VI b, bool d) { return ran("sig_svb", a, b, d); });
    ok &= v.bind("sig_d", [](double a) { return ran("sig_d", a); });
    ok &= v.bind("sig_m", [](MSI a) { ran("sig_m", a); });
    ok &= v.bind("sig_iii", [](int a, int b, int d) { return ran("sig_iii", a, b, d); });
    ok &= v.bind("sig_bd", [](bool a, double b) { ran("sig_bd", a, b); });
    ok &= v.bind("sig_isvbdm", [](int a, std::string b, VI d, bool e, double f, MSI g) { return ran("sig_isvbdm", a, b, d, e, f, g); });
    ok &= v.bind("throws", [](int kind, std::string s) -> std::string {
        switch (kind % 10) {
            case 0: throw std::runtime_error(s);
            case 1: throw 42;
            case 2: throw "text";
            case 3: throw std::string("string");
            case 4: throw std::bad_alloc();
            case 5: throw veigar_msgpack::type_error();
            case 6: throw std::runtime_error("");
            case 7: { struct X { char c[100]; }; throw X(); }
            case 8: throw nullptr;
            default: throw std::logic_error("a%sb%nc%d" + s);
        }
    });
    ok &= v.bind("throwsv", [](int kind) { if (kind & 1) throw kind; throw std::out_of_range("out"); });
    ok &= v.bind("throws0", []() -> int { throw std::runtime_error("zero"); });
    ok &= v.bind("throwsv0", []() { throw 1.5; });
    ok &= v.bind("big", [](int64_t n) { return std::string((size_t)n, 'b'); });
    ok &= v.bind("odd_result", [](int kind) { Odd o; o.kind = kind; return o; });
    ok &= v.bind("odd_arg", [](Odd o) { ran("odd_arg", o.kind); return o.kind; });
    ok &= v.bind("good", [](uint64_t t, std::string s) { return std::make_tuple(t + 1, s); });
    VP_CHECK(ok, "bind failed");
}

struct Done {
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    bool success = false;
    bool convOk = false;
    std::string msg, text;
    int code = -1;
};
struct Arg {
    char kind;  // what it is: i (int32), s, v, b, d (fractional), m, n (nil), l (larger than int32), x (vector of strings), h (map with wrong values), t (binary)
    std::string text;
    Obj o;
};
}  // namespace

void vpRun(const Case& c) {
    Veigar a, t, u, w;
    const uint32_t cap = (uint32_t)std::max<int64_t>(4, c.get("cap")), size = (uint32_t)std::max<int64_t>(256, c.get("size"));
    const uint32_t tcap = (uint32_t)std::max<int64_t>(4, c.get("tcap")), tsize = (uint32_t)std::max<int64_t>(256, c.get("tsize"));
    const size_t room = (size_t)cap * size, troom = (size_t)tcap * tsize;
    const std::string chA = prefix() + "a", chT = prefix() + "t", chW = prefix() + "w";
    for (Veigar* v : {&a, &t, &u, &w}) v->setTimeoutOfRWLock(20000);
    if (c.get("perturb")) vpw::perturb(caseSeed(), (int)c.get("perturb"), 300);
    bindAll(t);
    VP_CHECK(a.bind("good", [](uint64_t x, std::string s) { return std::make_tuple(x + 1, s); }), "bind");
    VP_CHECK(a.init(chA, cap, size) && t.init(chT, tcap, tsize), "init failed");
    VP_CHECK(w.init(chW, 10, 300), "init failed");
    w.uninit();  // an instance that is not initialised any more
    std::atomic<uint64_t> tok{1};
    std::atomic<int> goods{0};
    auto goodCall = [&](Veigar& from, const std::string& to, int style, size_t sz) {
        uint64_t k = tok++;
        std::string s = payload(k, (int64_t)std::min<size_t>(sz, std::min(room, troom) / 8));
        CallResult cr;
        if (style == 0) cr = from.syncCall(to, 20000, "good", k, s);
        else {
            auto x = from.asyncCall(to, 20000, "good", k, s);
            if (x->second.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail("a correct call was not answered");
            cr = x->second.get();
            from.releaseCall(x->first);
        }
        std::tuple<uint64_t, std::string> back;
        if (!cr.isSuccess() || !cr.convertObject(back) || std::get<0>(back) != k + 1 || std::get<1>(back) != s) fail("a correct call next to failing ones did not succeed: " + describe(cr));
        goods++;
    };
    std::atomic<bool> stop{false};
    std::atomic<bool> tGone{false};
    std::mutex tLife;
    std::thread bg;
    if (c.get("bg")) bg = std::thread([&] {
        int i = 0;
        while (!stop) {
            {
                std::lock_guard<std::mutex> lg(tLife);
                goodCall(i & 1 ? a : t, i & 2 ? chT : chA, i & 4 ? 1 : 0, (size_t)(i % 50));
            }
            i++;
            sleepUs(300);
        }
    });

    // Issues a call, waits for its completion and returns what came of it.
    auto issue = [&](Veigar& from, const std::string& ch, const std::string& fn, int style, int odd, std::function<void(const CallResult&)> onCb, auto&&... args) {
        auto d = std::make_shared<Done>();
        auto take = [](Done& x, const CallResult& cr) {
            x.n++;
            x.success = cr.isSuccess();
            x.msg = cr.errorMessage;
            x.code = (int)cr.errCode;
            try {
                x.text = cr.obj.get().as<std::string>();
                x.convOk = true;
            } catch (...) {
            }
        };
        try {
            if (style == 0) {
                CallResult cr = from.syncCall(ch, 30000, fn, args...);
                int dummy = 0;
                std::vector<std::string> dummy2;
                cr.convertObject(dummy);
                cr.convertObject(dummy2);
                take(*d, cr);
            } else if (style == 1) {
                auto x = from.asyncCall(ch, 30000, fn, args...);
                if (!x || !x->second.valid()) fail("a promise call returned no future");
                if (x->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) fail("a promise call of '" + fn + "' never completed");
                CallResult cr = x->second.get();
                take(*d, cr);
                from.releaseCall(x->first);
            } else {
                from.asyncCall([d, take, onCb](const CallResult& cr) {
                    {
                        std::lock_guard<std::mutex> lg(d->m);
                        take(*d, cr);
                        d->cv.notify_all();
                    }
                    if (onCb) onCb(cr);
                }, ch, 30000, fn, args...);
            }
        } catch (std::exception& e) {
            fail(strf("a call of '%s' threw into the caller: %s", fn.c_str(), e.what()));
        } catch (...) {
            fail(strf("a call of '%s' threw into the caller", fn.c_str()));
        }
        (void)odd;
        if (style == 2) {
            std::unique_lock<std::mutex> ul(d->m);
            if (!d->cv.wait_for(ul, std::chrono::seconds(30), [&] { return d->n > 0; })) fail("a callback call of '" + fn + "' never completed");
        }
        return d;
    };
    std::vector<std::pair<std::shared_ptr<Done>, std::string>> all;
    int failing = 0;
    std::set<int> kinds;
    auto mustFail = [&](const std::shared_ptr<Done>& d, const std::string& what) {
        std::lock_guard<std::mutex> lg(d->m);
        if (d->success) fail(what + ": reported as successful");
        if (d->msg.empty()) fail(strf("%s: no explanation (errCode %d)", what.c_str(), d->code));
        failing++;
    };
    int n = 0;
    for (auto& o : c.ops) {
        n++;
        const int kind = (int)(o.at(0) % KINDS), style = (int)(o.at(1) % 3);
        const int64_t par = o.at(2);
        Rng r((uint64_t)o.at(3));
        phase(strf("call %d: %s, style %d", n, kKind[kind], style));
        const std::string what = strf("call %d (%s, style %d, parameter %lld)", n, kKind[kind], style, (long long)par);
        std::string dst = o.at(4) ? chA : chT;  // the caller's own channel has one function only
        std::shared_ptr<Done> d;
        kinds.insert(kind);
        int before = execTotal;
        switch (kind) {
            case UNKNOWN: {
                static const std::vector<std::string> names = {"nofunc", "Good", "good ", "goo", "goodd", "", "%s%n%d", "sig", "sig_z"};
                std::string fn = par % 3 == 0 ? r.bytes((size_t)r.below(20), 0) : r.pick(names);
                if (par % 10 == 9) fn = std::string((size_t)r.range(100, 7000), 'n');
                if (par % 3 == 1) d = issue(a, dst, fn, style, 0, nullptr);
                else d = issue(a, dst, fn, style, 0, nullptr, (uint64_t)par, std::string("x"));
                mustFail(d, what);
                if (execTotal != before) fail(what + ": some function ran");
                break;
            }
            case ARGS: {
                std::string sig = kSigs[par % kSigNum];
                auto z = std::make_shared<veigar_msgpack::zone>();
                std::vector<Arg> as;
                // start from matching arguments, then disturb (or not)
                std::string kindsOfArgs = sig;
                int disturb = (int)r.weighted({2, 3, 3, 3});
                static const char all[] = "isvbdmnlxht";
                if (disturb == 1 && !kindsOfArgs.empty()) kindsOfArgs[(size_t)r.below((int64_t)sig.size())] = all[r.below(11)];
                else if (disturb == 2) kindsOfArgs.insert((size_t)r.below((int64_t)sig.size() + 1), 1, all[r.below(11)]);
                else if (disturb == 3 && !kindsOfArgs.empty()) kindsOfArgs.erase((size_t)r.below((int64_t)sig.size()), 1);
                if (kindsOfArgs.size() > 7) kindsOfArgs.resize(7);
                for (char k : kindsOfArgs) {
                    Arg g;
                    g.kind = k;
                    switch (k) {
                        case 'i': { int v = (int)r.next(); if (r.chance(1, 2)) v = (int)r.range(-200, 200); g.text = S(v); g.o = Obj(v, *z); break; }
                        case 'l': { int64_t v = r.chance(1, 2) ? 2147483648ll : -2147483649ll; g.o = Obj(v, *z); g.text = "l"; break; }
                        case 's': { std::string v = r.bytes((size_t)r.below(40), 0); g.text = S(v); g.o = Obj(v, *z); break; }
                        case 't': { std::string v = r.bytes((size_t)r.below(40), 0); g.text = S(v); g.o = Obj(std::vector<char>(v.begin(), v.end()), *z); break; }
                        case 'v': { VI v; for (int64_t i = r.below(6); i > 0; i--) v.push_back((int)r.range(-9, 9)); g.text = S(v); g.o = Obj(v, *z); break; }
                        case 'x': { std::vector<std::string> v{"a", "b"}; g.text = "x"; g.o = Obj(v, *z); break; }
                        case 'b': { bool v = r.chance(1, 2); g.text = S(v); g.o = Obj(v); break; }
                        case 'd': { double v = (double)r.range(-1000, 1000) + 0.5; g.text = S(v); g.o = Obj(v); break; }
                        case 'm': { MSI v; for (int64_t i = r.below(4); i > 0; i--) v["k" + std::to_string(i)] = (int)i; g.text = S(v); g.o = Obj(v, *z); break; }
                        case 'h': { std::map<std::string, std::string> v{{"k", "v"}}; g.text = "h"; g.o = Obj(v, *z); break; }
                        default: g.text = "n"; break;
                    }
                    as.push_back(g);
                }
                // does the call match?
                int match = kindsOfArgs.size() == sig.size() ? 1 : 0;  // 1 yes, 0 no, 2 either
                std::string key = "sig_" + sig + "(";
                for (size_t i = 0; i < as.size() && i < sig.size() && match; i++) {
                    char want = sig[i], have = as[i].kind;
                    bool ok = want == have;
                    if (want == 's' && have == 't') { if (match == 1) match = 2; ok = true; }
                    if (want == 'd' && (have == 'i' || have == 'l')) { match = 3; ok = true; }  // an integer is a fine double: any text
                    if (!ok) match = 0;
                    key += as[i].text + ";";
                }
                key += ")";
                int had;
                { std::lock_guard<std::mutex> lg(mu); had = execs[key]; }
                std::string fn = "sig_" + sig;
                auto call = [&](auto&&... x) { return issue(a, chT, fn, style, 0, nullptr, x...); };
                switch (as.size()) {
                    case 0: d = call(); break;
                    case 1: d = call(as[0].o); break;
                    case 2: d = call(as[0].o, as[1].o); break;
                    case 3: d = call(as[0].o, as[1].o, as[2].o); break;
                    case 4: d = call(as[0].o, as[1].o, as[2].o, as[3].o); break;
                    case 5: d = call(as[0].o, as[1].o, as[2].o, as[3].o, as[4].o); break;
                    case 6: d = call(as[0].o, as[1].o, as[2].o, as[3].o, as[4].o, as[5].o); break;
                    default: d = call(as[0].o, as[1].o, as[2].o, as[3].o, as[4].o, as[5].o, as[6].o); break;
                }
                std::lock_guard<std::mutex> lg(mu);
                if (match == 0) {
                    std::lock_guard<std::mutex> l2(d->m);
                    std::string w = what + strf(": function '%s' called with '%s'", fn.c_str(), kindsOfArgs.c_str());
                    if (execTotal != before) fail(w + " ran");
                    if (d->success) fail(w + " was reported as successful");
                    if (d->msg.empty()) fail(w + ": no explanation");
                    failing++;
                } else if (match == 1) {
                    std::lock_guard<std::mutex> l2(d->m);
                    std::string w = what + strf(": function '%s' called with matching arguments '%s'", fn.c_str(), kindsOfArgs.c_str());
                    if (!d->success) fail(w + " failed: " + d->msg);
                    if (execTotal != before + 1 || execs[key] != had + 1) fail(w + " did not run exactly once with exactly these arguments");
                } else if (execTotal > before + 1) fail(what + ": ran more than once");
                break;
            }
            case THROWS: {
                std::string s = r.chance(1, 3) ? std::string() : r.bytes((size_t)(r.chance(1, 4) ? r.range(50, 6000) : r.below(50)), 1);
                if (s.size() + 500 > troom / 2) s.resize(20);
                int f = (int)(par % 13);
                if (f < 10) d = issue(a, chT, "throws", style, 0, nullptr, f, s);
                else if (f == 10) d = issue(a, chT, "throwsv", style, 0, nullptr, (int)(par / 13));
                else if (f == 11) d = issue(a, chT, "throws0", style, 0, nullptr);
                else d = issue(a, chT, "throwsv0", style, 0, nullptr);
                mustFail(d, what);
                if ((f == 0 || f == 9) && s.size() + 500 < room / 2) {
                    const std::string text = std::runtime_error(f == 0 ? s : "a%sb%nc%d" + s).what();
                    std::lock_guard<std::mutex> lg(d->m);
                    if (d->msg.find(text) == std::string::npos) fail(strf("%s: the text of the exception (%zu bytes) is not in the explanation '%s'", what.c_str(), text.size(), d->msg.substr(0, 300).c_str()));
                }
                break;
            }
            case NOBODY: {
                std::string ch;
                switch (par % 7) {
                    case 0: ch = prefix() + "nobody"; break;
                    case 1: ch = ""; break;
                    case 2: ch = std::string(400, 'n'); break;
                    case 3: ch = "a/b"; break;
                    case 4: ch = chT + "x"; break;
                    case 5: ch = chT.substr(0, chT.size() - 1); break;
                    default: ch = prefix() + "x" + r.bytes((size_t)r.range(1, 20), 0); break;
                }
                d = issue(a, ch, "good", style, 0, nullptr, (uint64_t)1, std::string("x"));
                mustFail(d, what + " to " + hex(ch, 80));
                break;
            }
            case BIGCALL: {
                std::string s(troom + (size_t)r.small(5000) + (par % 2 ? 0 : 200), 'B');
                d = issue(a, chT, "good", style, 0, nullptr, (uint64_t)1, s);
                mustFail(d, what);
                break;
            }
            case BIGANSWER: {
                d = issue(a, chT, "big", style, 0, nullptr, (int64_t)(room + (size_t)r.small(20000)));
                mustFail(d, what);
                break;
            }
            case BIGERROR: {
                // an exception text that does not fit either
                std::string s((size_t)std::min<size_t>(troom - std::min<size_t>(troom / 2, 300), room + 100), 'e');
                d = issue(a, chT, "throws", style, 0, nullptr, 0, s);
                mustFail(d, what);
                break;
            }
            case UNINIT: {
                Veigar& x = par % 2 ? u : w;
                std::string to = par % 3 ? chT : chW;
                d = issue(x, to, "good", style, 0, nullptr, (uint64_t)1, std::string("x"));
                mustFail(d, what);
                break;
            }
            case PACKTHROWS: {
                Odd odd;
                odd.kind = 1 + (int)(par % 8);
                d = issue(a, dst, "odd_arg", style, 0, nullptr, odd);
                mustFail(d, what);
                if (execTotal != before) fail(what + ": the function ran");
                break;
            }
            case RESULTTHROWS: {
                d = issue(a, chT, "odd_result", style, 0, nullptr, 1 + (int)(par % 8));
                mustFail(d, what);
                break;
            }
            case CONVTHROWS: {
                // the sent object is a plain array, its conversion in the target throws
                d = issue(a, chT, "odd_arg", style, 0, nullptr, std::vector<int>{100 + 1 + (int)(par % 8)});
                mustFail(d, what);
                if (execTotal != before) fail(what + ": the function ran");
                break;
            }
            case CBTHROWS: {
                int how = (int)(par % 4);
                auto boom = [how](const CallResult&) {
                    if (how == 0) throw std::runtime_error("callback");
                    if (how == 1) throw 1;
                    if (how == 2) throw std::string("x");
                };
                if (par % 5 == 0) d = issue(a, prefix() + "nobody", "good", 2, 0, boom, (uint64_t)1, std::string("x"));
                else if (par % 5 == 1) d = issue(a, chT, "nofunc", 2, 0, boom);
                else {
                    d = issue(a, chT, "good", 2, 0, boom, (uint64_t)1, std::string("x"));
                    std::lock_guard<std::mutex> lg(d->m);
                    if (!d->success) fail(what + ": failed");
                    break;
                }
                mustFail(d, what);
                break;
            }
            case NULLCB: {
                try {
                    a.asyncCall(veigar::ResultCallback(), par % 2 ? chT : prefix() + "nobody", 20000, par % 3 ? "good" : "nofunc", (uint64_t)1, std::string("x"));
                } catch (...) {
                    fail(what + ": threw into the caller");
                }
                break;
            }
            case GROUP: {
                // correct calls while several that cannot be carried out are under way
                std::vector<std::shared_ptr<AsyncCallResult>> group;
                auto add = [&](int k) {
                    switch (k) {
                        case 0: case 1: case 2: group.push_back(a.asyncCall(prefix() + "nobody" + std::to_string(r.below(4)), 30000, "good", (uint64_t)1, std::string("x"))); break;
                        case 3: group.push_back(a.asyncCall(chT, 30000, "nofunc", (uint64_t)1)); break;
                        case 4: group.push_back(a.asyncCall(chT, 30000, "good", std::string(troom + 10, 'B'))); break;
                        case 5: group.push_back(a.asyncCall(chT, 30000, "sig_iii", 1, std::string("x"), 2)); break;
                        default: group.push_back(a.asyncCall(chT, 30000, "throws", (int)r.below(9), std::string("x"))); break;
                    }
                };
                const int one = (int)r.below(14);
                for (int64_t i = 4 + par % 9; i > 0; i--) add(one < 7 ? one : (int)r.below(7));
                for (int i = 0; i < 2; i++) {
                    const int64_t t0 = nowUs();
                    goodCall(a, chT, 0, 5);
                    if (nowUs() - t0 > 1500000) failTiming(what + strf(": a correct call took %lld ms", (long long)(nowUs() - t0) / 1000));
                }
                for (auto& g : group) {
                    if (g->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) fail(what + ": a call never completed");
                    CallResult cr = g->second.get();
                    a.releaseCall(g->first);
                    if (cr.isSuccess()) fail(what + ": reported as successful");
                    if (cr.errorMessage.empty()) fail(what + ": no explanation");
                    failing++;
                }
                break;
            }
            case STORM: {
                // many exceptions thrown at the same moment: each call is explained with the text of its own one
                const int th = 2 + (int)(par % 5), rounds = 1 + (int)(par % 40);
                const size_t len = (size_t)(par % 3 ? r.range(1, 60) : r.range(1, (int64_t)std::min<size_t>(std::min(room, troom) / 16, 900)));
                std::vector<std::thread> ts;
                for (int x = 0; x < th; x++) ts.emplace_back([&, x] {
                    for (int k = 0; k < rounds; k++) {
                        const std::string text = strf("<%d.%d ", x, k) + std::string(len, (char)('a' + x)) + ">";
                        auto p = a.asyncCall(chT, 30000, "throws", (k & 1) ? 9 : 0, text), q = a.asyncCall(chT, 30000, "throws", 0, "q" + text);
                        for (int w = 0; w < 2; w++) {
                            auto& y = w ? q : p;
                            if (y->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) fail(what + ": a call never completed");
                            CallResult cr = y->second.get();
                            a.releaseCall(y->first);
                            if (cr.isSuccess()) fail(what + ": reported as successful");
                            if (cr.errorMessage.find((w ? "q" : "") + text) == std::string::npos) fail(what + ": the explanation of a call that threw '" + (w ? "q" : "") + text.substr(0, 100) + "' is '" + cr.errorMessage.substr(0, 300) + "'");
                        }
                    }
                });
                for (auto& x : ts) x.join();
                failing += th * rounds * 2;
                break;
            }
            case WENTAWAY: {
                std::lock_guard<std::mutex> lg(tLife);
                t.uninit();
                d = issue(a, chT, "good", style, 0, nullptr, (uint64_t)1, std::string("x"));
                mustFail(d, what);
                if (par % 2) { auto e = issue(a, chT, "sig_i", (style + 1) % 3, 0, nullptr, 5); mustFail(e, what); all.push_back({e, what}); }
                bindAll(t);
                VP_CHECK(t.init(chT, tcap, tsize), "the channel cannot be initialised again");
                goodCall(a, chT, 0, 5);
                break;
            }
            default:
                goodCall(par % 2 ? a : t, par % 3 ? chT : chA, style & 1, (size_t)r.below(2000));
                break;
        }
        if (d) all.push_back({d, what});
    }
    phase("end");
    goodCall(a, chT, 0, 10);
    goodCall(t, chA, 1, 10);
    stop = true;
    if (bg.joinable()) bg.join();
    sleepUs(1500);
    a.uninit();
    t.uninit();
    u.uninit();
    vpw::perturbOff();
    for (auto& x : all) {
        std::lock_guard<std::mutex> lg(x.first->m);
        if (x.first->n != 1) fail(strf("%s: completed %d times", x.second.c_str(), x.first->n));
    }
    metric("failing", failing);
    metric("good", goods);
    for (int k : kinds) label(kKind[k]);
    if (failing >= 3 && kinds.size() >= 2 && goods >= 2) nontrivial();
}
