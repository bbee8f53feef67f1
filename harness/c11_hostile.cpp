// C11: malformed or hostile messages are contained.
#include "rpc.h"
#include "raw.h"
#include <sys/resource.h>
using namespace vp;
using namespace rpc;
using mref::Node;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VP_ASAN 1
#endif
#endif

void vpInfo(Info& i) {
    i.id = "C11";
    i.watchdogMs = 60000;
    i.rule = "A case puts 3..60 messages directly into the call or the response queue of a running instance: valid calls and answers in any encoding, mutations of them (bit flips, cuts, insertions, splices), random values, "
             "random bytes, absurd lengths, deep or wide nesting, several objects in one message, answers to several calls in one message, repeated ids, odd return channels; calls whose arguments, and answers whose results, nearly fit structures, arrays, tuples and times; between them ordinary calls from and to the instance run. An independent decoder says "
             "which messages are well-formed calls or answers. Non-trivial: at least 2 malformed and 2 well-formed messages.";
}

// ---- types of the parameters and results that hostile values are converted to -------
typedef std::chrono::system_clock SC;
struct HArr { int32_t a[3] = {}; char b[6] = {}; unsigned char c[4] = {}; std::vector<bool> d; MSGPACK_DEFINE(a, b, c, d); };
struct HMap { int64_t id = 0; std::vector<std::string> items; std::optional<std::array<char, 5>> opt; MSGPACK_DEFINE_MAP(id, items, opt); };
enum class HEnum : int8_t { X, Y = 5 };
MSGPACK_ADD_ENUM(HEnum)
typedef std::tuple<std::array<unsigned char, 4>, std::string, std::array<int, 3>> H0;
typedef std::tuple<HArr, std::map<std::string, HMap>> H1;
typedef std::tuple<std::tuple<std::wstring, int>, std::array<SC::time_point, 2>> H2;
typedef std::tuple<veigar_msgpack::type::tuple<int, std::string>, std::pair<std::wstring, bool>> H3;
typedef std::tuple<std::vector<bool>, std::array<char, 6>, std::optional<std::vector<SC::time_point>>> H4;
typedef std::tuple<HEnum, std::vector<std::tuple<int, std::vector<char>>>, std::shared_ptr<std::set<std::string>>, double> H5;

namespace {
std::string chV() { return prefix() + "v"; }
std::string chP() { return prefix() + "p"; }
std::string chR() { return prefix() + "r"; }

// ---- generation ----------------------------------------------------------------
// The bytes of the messages are generated in vpGenerate, the channel prefix of the case is not known there:
// channel names are written as "@R", "@P", "@V" and replaced (with adjusted lengths) by building from nodes where the op
// describes a node, and by textual names of equal length otherwise. Names of the form "~R" are what the raw bytes hold;
// a channel with the literal name is created for it: see chan3().
// Simplest robust way: generate from (seed, kind) at run time; the shrinker then shrinks the list of messages.
struct Gen {
    Rng r;
    uint64_t base;
    explicit Gen(uint64_t seed) : r(seed), base(seed) {}
    int64_t tokn = 0;
    std::string retChannel() {
        switch (r.weighted({12, 1, 1, 1, 1, 1, 1})) {
            case 0: return chR();
            case 1: return "";
            case 2: return prefix() + "nobody";
            case 3: return std::string(300, 'x');
            case 4: return "a/../b";
            case 5: return chP();
            default: return r.bytes((size_t)r.below(20), 0);
        }
    }
    Node goodArgs(const std::string& fn, uint64_t tok) {
        if (fn == "zero") return Node::arr({});
        if (fn == "void1") return Node::arr({Node::uinteger(tok)});
        return Node::arr({Node::uinteger(tok), Node::str(r.bytes((size_t)r.small(60), 0))});
    }
    Node goodCall(const std::string& id, uint64_t tok, bool oddRet) {
        static const std::vector<std::string> fns = {"echo", "echo", "echo", "void1", "thrower", "zero"};
        std::string fn = r.pick(fns);
        Node a = goodArgs(fn, tok);
        if (r.chance(1, 8)) fn = r.chance(1, 2) ? "nofunc" : r.bytes((size_t)r.below(12), 0);
        else if (r.chance(1, 8)) {  // wrong arguments
            if (r.chance(1, 2) && !a.c.empty()) a.c.pop_back();
            else if (r.chance(1, 2)) a.c.push_back(Node::nil());
            else a = mref::random(r, 3);
            if (a.t != Node::ARR && r.chance(2, 3)) a = Node::arr({a, mref::random(r, 2)});
        }
        return Node::arr({Node::integer(0), Node::str(id), Node::str(oddRet ? retChannel() : chR()), Node::str(fn), a});
    }
    std::string enc(const Node& n) {
        Rng w(r.next());
        return mref::encode(n, r.chance(1, 2) ? &w : nullptr);
    }
    std::string mutate(std::string s) {
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n && !s.empty(); i++) {
            size_t p = (size_t)r.below((int64_t)s.size());
            if (r.chance(1, 2)) p = (size_t)r.below(std::min<int64_t>((int64_t)s.size(), 8));
            static const std::vector<int64_t> tags = {0x80, 0x8f, 0x90, 0x94, 0x95, 0x96, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd8, 0xd9, 0xda, 0xdb,
                                                  0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x00, 0x01, 0x7f};
            switch (r.below(6)) {
                case 0: s[p] = (char)(s[p] ^ (1 << r.below(8))); break;
                case 1: s[p] = (char)r.pick(tags); break;
                case 2: s = s.substr(0, p); break;
                case 3: s.insert(p, r.bytes((size_t)r.range(1, 6), 0)); break;
                case 4: s.erase(p, (size_t)r.range(1, 4)); break;
                default: { size_t q = (size_t)r.below((int64_t)s.size()); s = s.substr(0, p) + s.substr(q); break; }
            }
        }
        return s;
    }
};
Node hExt(int8_t t, const std::string& v) { Node n; n.t = Node::EXT; n.ext = t; n.s = v; return n; }
// Arguments for the parameter lists above, as they should be.
Node hArgs(Rng& r, int k) {
    auto I = [&] { return Node::integer(r.range(-200, 70000)); };
    auto S = [&] { return Node::str(r.bytes((size_t)r.below(9), 0)); };
    auto A = [&](size_t n, std::function<Node()> f) { std::vector<Node> v; for (size_t i = 0; i < n; i++) v.push_back(f()); return Node::arr(v); };
    auto T = [&] { return r.chance(1, 2) ? hExt(-1, r.bytes(4, 0)) : r.chance(1, 2) ? hExt(-1, r.bytes(8, 0)) : hExt(-1, std::string(4, 0) + r.bytes(8, 0)); };
    auto M = [&] { return Node::map({Node::str("id"), I(), Node::str("items"), A((size_t)r.below(3), S), Node::str("opt"), r.chance(1, 3) ? Node::nil() : Node::str(r.bytes(5, 0))}); };
    switch (k) {
        case 0: return Node::arr({Node::bin(r.bytes(4, 0)), S(), A(3, I)});
        case 1: return Node::arr({Node::arr({A(3, I), S(), Node::bin(r.bytes(4, 0)), A((size_t)r.below(4), [&] { return Node::boolean(r.chance(1, 2)); })}), r.chance(1, 3) ? Node::map({}) : Node::map({S(), M()})});
        case 2: return Node::arr({Node::arr({A((size_t)r.below(4), I), I()}), A(2, T)});
        case 3: return Node::arr({Node::arr({I(), S()}), Node::arr({A((size_t)r.below(4), I), Node::boolean(true)})});
        case 4: return Node::arr({A((size_t)r.below(4), [&] { return Node::boolean(r.chance(1, 2)); }), Node::str(r.bytes(6, 0)), r.chance(1, 3) ? Node::nil() : A((size_t)r.below(3), T)});
        default: return Node::arr({Node::integer(r.below(7)), A((size_t)r.below(3), [&] { return Node::arr({I(), Node::bin(r.bytes((size_t)r.below(5), 0))}); }), r.chance(1, 3) ? Node::nil() : A((size_t)r.below(3), S), Node::integer(3)});
    }
}
// Replaces, removes or adds a part anywhere in a value.
void hMutate(Rng& r, Node& n) {
    if (!n.c.empty() && r.chance(3, 4)) { hMutate(r, n.c[(size_t)r.below((int64_t)n.c.size())]); return; }
    switch (r.below(6)) {
        case 0: if (n.t == Node::ARR && !n.c.empty()) n.c.erase(n.c.begin() + r.below((int64_t)n.c.size())); else n = Node::arr({}); break;
        case 1: if (n.t == Node::ARR) n.c.insert(n.c.begin() + r.below((int64_t)n.c.size() + 1), mref::random(r, 1)); else n = Node::str(""); break;
        case 2: if (!n.s.empty() && n.t != Node::EXT) n.s.resize((size_t)r.below((int64_t)n.s.size())); else n = Node::nil(); break;
        case 3: if (n.t == Node::ARR) n.c.clear(); else n = mref::random(r, 2); break;
        case 4: if (n.t == Node::STR || n.t == Node::BIN) n.t = n.t == Node::STR ? Node::BIN : Node::STR; else n = Node::map({}); break;
        default: n = mref::random(r, 2); break;
    }
}
std::string be32(uint64_t v) { std::string s; for (int i = 3; i >= 0; i--) s.push_back((char)(v >> (8 * i))); return s; }
}  // namespace

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["cap"] = r.range(4, 60);
    c.cfg["size"] = r.pick(std::vector<int64_t>{300, 1024, 4096});
    int64_t n = r.range(3, thorough ? 90 : 60);
    for (int64_t i = 0; i < n; i++) {
        int64_t s = (int64_t)(r.next() >> 8);
        switch (r.weighted({10, 4, 2, 2, 2, 4, 2, 2, 4})) {
            case 0: c.ops.push_back(Op("call", {r.below(15), s})); break;      // a message in the call queue
            case 1: c.ops.push_back(Op("resp", {r.below(11), s})); break;      // a message in the response queue
            case 2: c.ops.push_back(Op("good", {r.below(2), r.small(80)})); break;
            case 3: c.ops.push_back(Op("vgood", {r.below(2), r.small(80)})); break;
            case 4: c.ops.push_back(Op("out", {r.below(2)})); break;             // a call of the instance to the raw channel
            case 5: c.ops.push_back(Op("ans", {r.below(8), r.below(13), s, r.below(2)})); break;  // a message about an outstanding call
            case 6: c.ops.push_back(Op("rep", {r.range(2, 12), r.below(15), s})); break;  // the same kind of call message several times
            case 8: c.ops.push_back(Op("ty", {r.below(6), s, r.below(4)})); break;   // a call with well-formed or wrong arguments of many types
            default: c.ops.push_back(Op("flush", {})); break;
        }
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("cap") >= 2 && c.get("size") >= 200; }

namespace {
std::mutex mu;
std::map<std::string, int> ran;             // executions by function and arguments
std::map<std::string, int> must, may;       // expected ones
std::map<std::string, int> answered;        // answers by id and outcome
std::map<std::string, int> ansMust, ansMay;
std::set<std::string> once;                 // ids of calls that must be answered once, whatever the answer
int wellFormed = 0, malformed = 0;
std::atomic<size_t> maxAlloc{0};

void log(const std::string& k) { std::lock_guard<std::mutex> lg(mu); ran[k]++; }
std::string keyOf(const char* fn, uint64_t tok, const std::string& s) { return strf("%s(%llu,%s)", fn, (unsigned long long)tok, hex(s, 80).c_str()); }
std::string dump(const Node& n) { return hex(mref::encode(n), 100); }

// What the reference decoder makes of a message in the call queue.
void expectCall(const std::string& m) {
    std::lock_guard<std::mutex> lg(mu);
    size_t off = 0;
    bool any = false;
    while (off < m.size()) {
        Node n;
        mref::Status st = mref::decode(m, off, n);
        if (st != mref::OK) { malformed++; return; }
        bool deep = raw::depthOf(n) > 100;
        if (n.t != Node::ARR || n.c.size() != 5) { malformed++; any = true; continue; }
        auto isStr = [](const Node& x) { return x.t == Node::STR; };
        auto strish = [](const Node& x) { return x.t == Node::STR || x.t == Node::BIN; };
        if (!(n.c[0].t == Node::UINT && n.c[0].u == 0) || !strish(n.c[1]) || !strish(n.c[2]) || !strish(n.c[3])) { malformed++; any = true; continue; }
        bool sure = isStr(n.c[1]) && isStr(n.c[2]) && isStr(n.c[3]) && n.c[4].t == Node::ARR && !n.c[1].s.empty() && !deep;
        const std::string& fn = n.c[3].s;
        const Node& a = n.c[4];
        std::string key, result;
        bool run = false, maybe = false;
        auto strArg = [&](const Node& x) { return strish(x); };
        if (a.t == Node::ARR) {
            if (fn == "echo" && a.c.size() == 2 && a.c[0].t == Node::UINT && strArg(a.c[1])) {
                run = true;
                maybe = a.c[1].t == Node::BIN;
                key = keyOf("echo", a.c[0].u, a.c[1].s);
                result = "ok:" + dump(Node::arr({Node::uinteger(a.c[0].u), Node::str(a.c[1].s)}));
            } else if (fn == "void1" && a.c.size() == 1 && a.c[0].t == Node::UINT) {
                run = true;
                key = keyOf("void1", a.c[0].u, "");
                result = "ok:" + dump(Node::nil());
            } else if (fn == "thrower" && a.c.size() == 2 && a.c[0].t == Node::UINT && strArg(a.c[1])) {
                run = true;
                maybe = a.c[1].t == Node::BIN;
                key = keyOf("thrower", a.c[0].u, a.c[1].s);
                result = "err";
            } else if (fn == "zero" && a.c.empty()) {
                run = true;
                key = keyOf("zero", 0, "");
                result = "ok:" + dump(Node::integer(7));
            }
        } else if (fn == "zero") {
            key = keyOf("zero", 0, "");
            may[key]++;
            ansMay[n.c[1].s + " ok:" + dump(Node::integer(7))]++;
        }
        if (run) { if (sure && !maybe) must[key]++; else may[key]++; }
        if (n.c[2].s == chR()) {
            bool s2 = sure && !maybe;
            std::string ok = n.c[1].s + " " + (run ? result : std::string("err"));
            if (s2) ansMust[ok]++; else { ansMay[ok]++; ansMay[n.c[1].s + " err"]++; }
        }
        if (sure) wellFormed++; else malformed++;
        any = true;
    }
    if (m.empty()) malformed++;
}
struct Out {   // a call of the instance to the raw channel
    std::string id;
    std::shared_ptr<AsyncCallResult> p;
    std::shared_ptr<std::atomic<int>> cbCount;
    std::shared_ptr<std::string> cbResult;
    std::set<std::string> ok;   // acceptable outcomes after the messages sent so far
    bool sureAnswered = false, mayFail = false;
    bool done = false;
    std::string outcome;
};
int tyRan = 0, tyErr = 0, convertible = 0, notConvertible = 0;
template <typename... T> void convertTo(const veigar_msgpack::object& o) {
    auto one = [&](auto* p) {
        typedef typename std::remove_pointer<decltype(p)>::type X;
        try { X x = o.as<X>(); (void)x; convertible++; } catch (std::exception&) { notConvertible++; }
    };
    (one((T*)nullptr), ...);
}
std::string outcomeOf(const CallResult& cr) {
    if (cr.isSuccess()) convertTo<H0, H1, H2, H3, H4, H5, HArr, HMap, HEnum, std::wstring, SC::time_point, std::array<SC::time_point, 2>, std::array<unsigned char, 4>, std::array<char, 6>, std::vector<bool>, std::set<std::string>, std::map<std::string, int>>(cr.obj.get());
    if (!cr.isSuccess()) return "err:" + std::string(cr.errorMessage.empty() ? "(empty)" : "");
    try {
        return "ok:" + cr.obj.get().as<std::string>();
    } catch (...) {
        return "ok:other";
    }
}
}  // namespace

void vpRun(const Case& c) {
#ifdef VP_ASAN
    __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t n) { size_t m = maxAlloc; while (n > m && !maxAlloc.compare_exchange_weak(m, n)) {} }, [](const volatile void*) {});
#endif
    const int cap = (int)std::max<int64_t>(2, c.get("cap"));
    const int size = (int)std::max<int64_t>(200, c.get("size"));
    const size_t total = (size_t)cap * (size_t)size;
    raw::Queue rResp, rCall, vCall, vResp;
    VP_CHECK(rResp.create(chR() + "_resp", 400, 4096) && rCall.create(chR() + "_call", 100, 2048), "raw queues");
    Veigar v, p;
    auto mk = [&](Veigar& x, bool logIt) {
        x.setTimeoutOfRWLock(20000);
        bool ok = x.bind("echo", [=](uint64_t tok, std::string s) { if (logIt) log(keyOf("echo", tok, s)); return std::make_tuple(tok, s); });
        ok = ok && x.bind("void1", [=](uint64_t tok) { if (logIt) log(keyOf("void1", tok, "")); });
        ok = ok && x.bind("thrower", [=](uint64_t tok, std::string s) -> int { if (logIt) log(keyOf("thrower", tok, s)); throw std::runtime_error("thrown on purpose"); });
        ok = ok && x.bind("zero", [=]() { if (logIt) log(keyOf("zero", 0, "")); return 7; });
        ok = ok && x.bind("ty0", [](std::tuple_element<0, H0>::type a, std::tuple_element<1, H0>::type b, std::tuple_element<2, H0>::type c) { return std::make_tuple(a, b, c); });
        ok = ok && x.bind("ty1", [](std::tuple_element<0, H1>::type a, std::tuple_element<1, H1>::type b) { return std::make_tuple(a, b); });
        ok = ok && x.bind("ty2", [](std::tuple_element<0, H2>::type a, std::tuple_element<1, H2>::type b) { return std::make_tuple(a, b); });
        ok = ok && x.bind("ty3", [](std::tuple_element<0, H3>::type a, std::tuple_element<1, H3>::type b) { return std::make_tuple(a, b); });
        ok = ok && x.bind("ty4", [](std::tuple_element<0, H4>::type a, std::tuple_element<1, H4>::type b, std::tuple_element<2, H4>::type c) { return std::make_tuple(a, b, c); });
        ok = ok && x.bind("ty5", [](std::tuple_element<0, H5>::type a, std::tuple_element<1, H5>::type b, std::tuple_element<2, H5>::type c, std::tuple_element<3, H5>::type d) { return std::make_tuple(a, b, c, d); });
        ok = ok && x.bind("good", [=](std::string s) { return s; });
        VP_CHECK(ok, "bind failed");
    };
    mk(v, true);
    mk(p, false);
    VP_CHECK(v.init(chV(), (uint32_t)cap, (uint32_t)size) && p.init(chP(), 50, 2048), "init failed");
    VP_CHECK(vCall.open(chV() + "_call") && vResp.open(chV() + "_resp"), "cannot open the queues");

    // reader of the raw answers
    std::atomic<bool> stop{false};
    std::thread reader([&] {
        std::string m;
        while (!stop) {
            if (!rResp.pop(m, 20)) continue;
            size_t off = 0;
            Node n;
            if (mref::decode(m, off, n) != mref::OK || off != m.size() || n.t != Node::ARR || n.c.size() != 4 || n.c[0].t != Node::UINT || n.c[0].u != 1 || n.c[1].t != Node::STR)
                fail("the instance sent something that is no answer: " + hex(m, 100));
            std::string k = n.c[1].s + " ";
            if (n.c[2].t == Node::NIL) k += "ok:" + dump(n.c[3]);
            else if (n.c[2].t == Node::STR && !n.c[2].s.empty()) k += "err";
            else k += "strange error " + mref::show(n.c[2]);
            std::lock_guard<std::mutex> lg(mu);
            // a mutated return channel may be that of another case running at the same time: its answers are not for this one
            const size_t colon = n.c[1].s.find(':');
            if (!ansMust.count(k) && !ansMay.count(k) && n.c[1].s.compare(0, 4, "id" + prefix().substr(0, 2)) == 0 && colon != std::string::npos && n.c[1].s.substr(2, colon - 2) != prefix()) continue;
            answered[k]++;
            if (once.count(n.c[1].s)) {
                answered[n.c[1].s + " once"]++;
                if (n.c[2].t == Node::NIL) tyRan++; else if (n.c[2].t == Node::STR) tyErr++;
                answered.erase(k);
                if (n.c[2].t != Node::NIL && (n.c[2].t != Node::STR || n.c[2].s.empty())) fail("a strange answer: " + hex(m, 100));
            }
        }
    });
    std::vector<Out> outs;
    int64_t tokc = 1;
    size_t resident0 = 0;
    auto vmhwm = [] {
        size_t kb = 0;
        FILE* f = fopen("/proc/self/status", "r");
        char line[200];
        while (f && fgets(line, sizeof line, f)) if (sscanf(line, "VmHWM: %zu", &kb) == 1) break;
        if (f) fclose(f);
        return kb;
    };
    resident0 = vmhwm();
    size_t largestMsg = 0;
    std::string lastResp;
    auto pushCall = [&](const std::string& m) {
        if (m.empty() || m.size() > total) return;
        largestMsg = std::max(largestMsg, m.size());
        expectCall(m);
        raw::PushRes pr = vCall.push(m, 20000);
        if (pr == raw::FULLQ) fail("the call queue stays full: the instance does not consume its messages any more");
        VP_CHECK(pr == raw::PUSHED, "pushing a message of %zu bytes: %d", m.size(), (int)pr);
    };
    auto pushResp = [&](const std::string& m) {
        if (m.empty() || m.size() > total) return;
        largestMsg = std::max(largestMsg, m.size());
        lastResp = m;
        raw::PushRes pr = vResp.push(m, 20000);
        if (pr == raw::FULLQ) fail("the response queue stays full: the instance does not consume its messages any more");
        VP_CHECK(pr == raw::PUSHED, "pushing an answer of %zu bytes: %d", m.size(), (int)pr);
    };
    auto good = [&](Veigar& from, const std::string& to, int64_t style, int64_t sz) {
        std::string s = payload((uint64_t)tokc++, std::min<int64_t>(sz, 60));
        CallResult cr;
        if (style == 0) cr = from.syncCall(to, 20000, "good", s);
        else {
            auto a = from.asyncCall(to, 20000, "good", s);
            if (a->second.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail("an ordinary call was not answered any more");
            cr = a->second.get();
            from.releaseCall(a->first);
        }
        std::string back;
        if (!cr.isSuccess() || !cr.convertObject(back) || back != s) fail("an ordinary call failed: " + describe(cr));
    };
    auto checkOut = [&](Out& o, bool mustBeDone) {
        int64_t t = mustBeDone ? 10000 : 0;
        if (o.p) {
            if (!o.done && o.p->second.wait_for(std::chrono::milliseconds(t)) == std::future_status::ready) { o.done = true; CallResult cr = o.p->second.get(); o.outcome = outcomeOf(cr); }
        } else {
            waitFor(t, [&] { return o.cbCount->load() > 0; });
            int n = o.cbCount->load();
            if (n > 1) fail(strf("a callback ran %d times", n));
            if (n == 1) { o.done = true; o.outcome = *o.cbResult; }
        }
        if (mustBeDone && !o.done) fail("a well-formed answer did not complete the call it names; last message: " + hex(lastResp, 300));
        if (o.done && !o.ok.count(o.outcome)) fail("a call was completed with '" + hex(o.outcome, 80) + "' although no such answer was sent");
    };
    auto settle = [&] {
        phase("settling");
        if (!waitFor(20000, [&] { return vCall.number() == 0 && vResp.number() == 0; }, 500)) fail("messages stay in the queues of the instance");
        auto met = [&](std::map<std::string, int>& have, std::map<std::string, int>& need) {
            std::lock_guard<std::mutex> lg(mu);
            for (auto& k : need) { auto it = have.find(k.first); if (it == have.end() || it->second < k.second) return false; }
            return true;
        };
        waitFor(10000, [&] { return met(ran, must) && met(answered, ansMust); }, 500);
        for (int i = 0; i < 3; i++) good(p, chV(), 0, 5), good(v, chP(), 0, 5);
        sleepUs(4000);
        std::lock_guard<std::mutex> lg(mu);
        for (auto& k : must) if (ran[k.first] < k.second) fail(strf("a well-formed call was executed %d instead of %d times: ", ran[k.first], k.second) + k.first);
        for (auto& k : ran) if (k.second > must[k.first] + may[k.first]) fail(strf("a function ran %d times, allowed %d: ", k.second, must[k.first] + may[k.first]) + k.first);
        for (auto& k : ansMust) if (answered[k.first] < k.second) fail(strf("a well-formed call was answered %d instead of %d times: ", answered[k.first], k.second) + hex(k.first, 100));
        for (auto& k : answered) if (k.second > ansMust[k.first] + ansMay[k.first]) fail(strf("%d answers (%d allowed): ", k.second, ansMust[k.first] + ansMay[k.first]) + k.first);
    };
    auto deepBytes = [&](Rng& r, int64_t levels, bool map) {
        std::string s;
        if (map) for (int64_t i = 0; i < levels; i++) s += "\x81\xc0";
        else s.assign((size_t)levels, (char)0x91);
        if (r.chance(1, 2)) s += "\xc0";
        return s;
    };
    auto callMessage = [&](int64_t kind, int64_t seed) {
        Gen g((uint64_t)seed);
        auto id = [&] { return strf("id%s:%llx-%lld", prefix().c_str(), (unsigned long long)seed, (long long)tokc); };
        uint64_t tok = (uint64_t)tokc++ + 1000000;
        switch (kind) {
            case 0: case 1: return g.enc(g.goodCall(id(), tok, false));
            case 2: return g.enc(g.goodCall(id(), tok, true));
            case 3: case 4: return g.mutate(g.enc(g.goodCall(id(), tok, true)));
            case 5: return g.r.bytes((size_t)g.r.small(300), 0);
            case 6: return g.enc(mref::random(g.r, 4));
            case 7: {
                Node n = g.goodCall(id(), tok, true);
                size_t i = (size_t)g.r.below(5);
                if (i == 0 && g.r.chance(1, 2)) n.c[0] = Node::integer(g.r.pick(std::vector<int64_t>{1, 2, -1, 127, 128, 255, 256, 1ll << 40}));
                else n.c[i] = mref::random(g.r, 3);
                return g.enc(n);
            }
            case 8: {  // absurd lengths, alone or as the arguments of a call
                std::string s = g.r.chance(1, 2) ? std::string("\x95\x00", 2) + "\xa2id" + mref::encode(Node::str(chR())) + "\xa4" "echo" : std::string();
                static const std::vector<std::string> heads = {"\xdd", "\xdf", "\xdb", "\xc6", "\xc9"};
                s += g.r.pick(heads);
                s += be32(g.r.pick(std::vector<int64_t>{0xffffffffll, 0xfffffffell, 0x80000000ll, 0x7fffffffll, 0x10000000ll, 0x02000000ll, 100000, 70000}));
                s += g.r.bytes((size_t)g.r.below(30), 0);
                return s;
            }
            case 9: {  // deep nesting, below and above every plausible limit
                int64_t lv = g.r.pick(std::vector<int64_t>{20, 90, 200, 900, 990, 1000, 1010, 2000, 20000, 100000});
                lv = std::min<int64_t>(lv, (int64_t)total / 3 - 100);
                std::string s = deepBytes(g.r, lv, g.r.chance(1, 3));
                if (g.r.chance(1, 2)) {
                    std::string id2 = id();
                    { std::lock_guard<std::mutex> lg(mu); ansMay[id2 + " err"]++; }
                    s = std::string("\x95\x00", 2) + mref::encode(Node::str(id2)) + mref::encode(Node::str(chR())) + "\xa4" "echo" + s;
                }
                return s;
            }
            case 10: {  // several objects in one message
                std::string s;
                int n = (int)g.r.range(2, 5);
                for (int i = 0; i < n; i++) {
                    if (g.r.chance(2, 3)) s += g.enc(g.goodCall(id() + "." + std::to_string(i), tok + (uint64_t)i * 1000000, false));
                    else s += g.r.chance(1, 2) ? g.enc(mref::random(g.r, 2)) : g.r.bytes((size_t)g.r.below(4), 0);
                }
                return s;
            }
            case 11: return g.enc(raw::answerNode(id(), Node::nil(), mref::random(g.r, 2)));
            case 12: return std::string();
            case 13: {  // wide nesting: many arrays that each promise many elements
                std::string s;
                int n = (int)g.r.range(1, 200);
                size_t claim = (size_t)g.r.range(100, 3000);
                for (int i = 0; i < n; i++) s += std::string("\xdc") + (char)(claim >> 8) + (char)claim;
                s.resize(std::max<size_t>(s.size(), claim), '\xc0');
                return s;
            }
            default: {  // a large valid call
                std::string i2 = id();
                size_t room = total > 400 ? total - 300 : 50;
                size_t n = (size_t)g.r.range(0, (int64_t)std::min<size_t>(room, 3500));
                return g.enc(raw::callNode(i2, chR(), "echo", {Node::uinteger(tok), Node::str(payload(tok, (int64_t)n))}));
            }
        }
    };
    int nth = 0;
    for (auto& o : c.ops) {
        nth++;
        phase(strf("operation %d (%s %lld)", nth, o.k.c_str(), (long long)o.at(0)));
        if (o.k == "call") {
            std::string m = callMessage(o.at(0) % 15, o.at(1));
            phase(strf("operation %d (call %lld): %s", nth, (long long)o.at(0), hex(m, 120).c_str()));
            pushCall(m);
        } else if (o.k == "ty") {
            Rng r((uint64_t)o.at(1));
            const int k = (int)(o.at(0) % 6);
            Node a = hArgs(r, k);
            for (int64_t i = 0; i < o.at(2); i++) hMutate(r, a);
            if (a.t != Node::ARR) a = Node::arr({a});
            const std::string id = strf("ty%d-%lld", k, (long long)tokc++);
            std::string m = Gen((uint64_t)o.at(1)).enc(raw::callNode(id, chR(), "ty" + std::to_string(k), a.c));
            if (m.size() > total || raw::depthOf(a) > 50) continue;
            phase(strf("operation %d (ty%d): %s", nth, k, hex(m, 200).c_str()));
            {
                std::lock_guard<std::mutex> lg(mu);
                once.insert(id);
                ansMust[id + " once"]++;
                (o.at(2) ? malformed : wellFormed)++;
            }
            raw::PushRes pr = vCall.push(m, 20000);
            if (pr == raw::FULLQ) fail("the call queue stays full: the instance does not consume its messages any more");
            VP_CHECK(pr == raw::PUSHED, "pushing a message of %zu bytes: %d", m.size(), (int)pr);
        } else if (o.k == "rep") {
            for (int64_t i = 0; i < std::min<int64_t>(20, o.at(0)); i++) pushCall(callMessage(o.at(1) % 15, o.at(2) + i));
        } else if (o.k == "resp") {
            Gen g((uint64_t)o.at(1));
            std::string m;
            Node val = Node::str("hostile");
            switch (o.at(0) % 11) {
                case 0: m = g.enc(raw::answerNode("unknown id", Node::nil(), val)); malformed++; break;
                case 1: m = g.r.bytes((size_t)g.r.small(300), 0); break;
                case 2: m = g.enc(mref::random(g.r, 4)); break;
                case 3: m = g.mutate(g.enc(raw::answerNode("unknown id", Node::nil(), val))); break;
                case 4: m = g.enc(g.goodCall("unknown", 5, false)); break;
                case 5: m = g.enc(raw::answerNode("", Node::nil(), val)); break;
                case 6: { int64_t lv = std::min<int64_t>(g.r.pick(std::vector<int64_t>{100, 999, 1001, 5000, 50000}), (int64_t)total / 3 - 100); m = std::string("\x94\x01", 2) + "\xa3idx\xc0" + deepBytes(g.r, lv, g.r.chance(1, 3)); break; }
                case 7: m = std::string("\x94\x01", 2) + "\xa3idx\xc0\xdd" + be32(g.r.next() | 0x10000000) + g.r.bytes(5, 0); break;
                case 8: m = std::string(); break;
                case 9: { Node n = raw::answerNode("unknown id", Node::nil(), val); n.c[(size_t)g.r.below(4)] = mref::random(g.r, 2); m = g.enc(n); break; }
                default: { std::string s; for (int i = 0; i < 4; i++) s += g.r.chance(1, 2) ? g.enc(raw::answerNode("unknown id", mref::random(g.r, 1), val)) : g.enc(mref::random(g.r, 1)); m = s; break; }
            }
            malformed++;
            pushResp(m);
        } else if (o.k == "good") {
            good(p, chV(), o.at(0), o.at(1));
            wellFormed++;
        } else if (o.k == "vgood") {
            good(v, chP(), o.at(0), o.at(1));
            wellFormed++;
        } else if (o.k == "out") {
            Out x;
            if (o.at(0) == 0) x.p = v.asyncCall(chR(), 100000, "rawfunc", (uint64_t)tokc++);
            else {
                x.cbCount = std::make_shared<std::atomic<int>>(0);
                x.cbResult = std::make_shared<std::string>();
                auto cnt = x.cbCount;
                auto res = x.cbResult;
                v.asyncCall([cnt, res](const CallResult& cr) { if (cnt->load() == 0) *res = outcomeOf(cr); ++*cnt; }, chR(), 100000, "rawfunc", (uint64_t)tokc++);
            }
            std::string m;
            if (!rCall.pop(m, 15000)) fail("a call to the raw channel does not arrive");
            size_t off = 0;
            Node n;
            VP_CHECK(mref::decode(m, off, n) == mref::OK && n.t == Node::ARR && n.c.size() == 5 && n.c[1].t == Node::STR, "a sent call is no call: %s", hex(m, 80).c_str());
            x.id = n.c[1].s;
            if (x.p) VP_CHECK(x.p->first == x.id, "the call id differs from the one sent");
            outs.push_back(std::move(x));
        } else if (o.k == "ans" && !outs.empty()) {
            Out& x = outs[(size_t)(o.at(0) % (int64_t)outs.size())];
            Gen g((uint64_t)o.at(2));
            std::string val = "v" + std::to_string(tokc++);
            Node ok = raw::answerNode(x.id, Node::nil(), Node::str(val));
            bool wait = o.at(3);
            switch (o.at(1) % 13) {
                case 11: case 12: {  // answers to several calls in one message: each of them counts for itself
                    std::string s;
                    for (int64_t k = g.r.range(2, 6); k > 0 && s.size() + 250 < total; k--) {
                        Out& y = outs[(size_t)g.r.below((int64_t)outs.size())];
                        std::string v2 = "v" + std::to_string(tokc++);
                        Node n = raw::answerNode(y.id, Node::nil(), Node::str(v2));
                        std::string part;
                        switch (g.r.below(4)) {
                            case 0: n.c[2] = Node::str("some error " + v2); y.ok.insert("err:"); y.sureAnswered = true; break;
                            case 1: n.c[2] = Node::integer(g.r.range(-5, 5)); y.ok.insert("err:"); y.mayFail = true; malformed++; break;
                            case 2: n.c[3] = Node::nil(); y.ok.insert("ok:other"); y.sureAnswered = true; break;
                            default: y.ok.insert("ok:" + v2); y.sureAnswered = true; break;
                        }
                        part = g.enc(n);
                        s += part;
                        if (g.r.chance(1, 4)) s += g.enc(raw::answerNode("unknown id", Node::str("another error"), Node::nil()));
                        wellFormed++;
                    }
                    pushResp(s);
                    break;
                }
                case 9: case 10: {  // a result that nobody expects, it is converted to many types
                    int k = (int)g.r.below(6);
                    Node a = hArgs(g.r, k);
                    if (!a.c.empty() && g.r.chance(1, 2)) { Node part = a.c[(size_t)g.r.below((int64_t)a.c.size())]; a = part; }
                    for (int64_t i = g.r.below(4); i > 0; i--) hMutate(g.r, a);
                    Node n = raw::answerNode(x.id, Node::nil(), a);
                    std::string m = g.enc(n);
                    if (raw::depthOf(n) > 50 || m.size() > total) break;
                    x.ok.insert(a.t == Node::STR || a.t == Node::BIN ? "ok:" + a.s : std::string("ok:other"));
                    x.sureAnswered = true;
                    wellFormed++;
                    pushResp(m);
                    break;
                }
                case 0: case 1: x.ok.insert("ok:" + val); pushResp(g.enc(ok)); x.sureAnswered = true; wellFormed++; break;
                case 2: {  // twice, with different values
                    Node n2 = ok;
                    n2.c[3] = Node::str(val + "b");
                    x.ok.insert("ok:" + val);
                    x.ok.insert("ok:" + val + "b");
                    if (g.r.chance(1, 2)) { pushResp(g.enc(ok)); pushResp(g.enc(n2)); }
                    else pushResp(g.enc(ok) + g.enc(n2));
                    x.sureAnswered = true;
                    wellFormed++;
                    break;
                }
                case 3: { Node e = ok; e.c[2] = Node::str("some error"); x.ok.insert("err:"); pushResp(g.enc(e)); x.sureAnswered = true; wellFormed++; break; }
                case 4: {  // an error of the wrong type: may be taken as a failure
                    Node e = ok;
                    e.c[2] = Node::integer(g.r.range(-5, 5));
                    x.ok.insert("err:");
                    x.mayFail = true;
                    malformed++;
                    pushResp(g.enc(e));
                    break;
                }
                case 5: { Node n = ok; n.c[0] = Node::integer(g.r.pick(std::vector<int64_t>{0, 2, -1, 257, 1ll << 32 | 1})); malformed++; pushResp(g.enc(n)); break; }
                case 6: { Node n = ok; if (g.r.chance(1, 2)) n.c.pop_back(); else n.c.push_back(Node::nil()); malformed++; pushResp(g.enc(n)); break; }
                case 7: { std::string s = g.enc(ok); s = s.substr(0, (size_t)g.r.below((int64_t)s.size())); malformed++; pushResp(s); break; }
                default: {  // behind something else in the same message
                    std::string mid = g.r.chance(1, 2) ? g.enc(mref::random(g.r, 1)) : std::string();
                    if (mid.size() > 300) mid.clear();
                    std::string s = g.enc(raw::answerNode("unknown id", Node::nil(), Node::nil())) + mid + g.enc(ok);
                    x.ok.insert("ok:" + val);
                    x.sureAnswered = true;
                    wellFormed++;
                    pushResp(s);
                    break;
                }
            }
            if (wait) checkOut(x, x.sureAnswered);
        } else if (o.k == "flush") {
            settle();
        }
    }
    settle();
    for (auto& x : outs) checkOut(x, x.sureAnswered);
    // the calls still waiting are answered properly now
    for (auto& x : outs) {
        if (x.done) continue;
        if (x.ok.empty() || x.mayFail) {
            x.ok.insert("ok:last");
            pushResp(mref::encode(raw::answerNode(x.id, Node::nil(), Node::str("last"))));
            checkOut(x, true);
        }
    }
    phase("end");
    sleepUs(2000);
    for (auto& x : outs) if (!x.p) checkOut(x, true);
    if (maxAlloc.load() > (1ull << 30)) fail(strf("an allocation of %zu bytes while all messages had at most %zu bytes", maxAlloc.load(), largestMsg));
#ifndef VP_ASAN
    size_t grow = vmhwm() - resident0;
    if (grow > 600 * 1024) fail(strf("the memory grew by %zu MiB while all messages had at most %zu bytes", grow / 1024, largestMsg));
#endif
    // uninitialising with everything consumed
    for (auto& x : outs) if (x.p) v.releaseCall(x.p->first);
    v.uninit();
    p.uninit();
    stop = true;
    reader.join();
    rResp.close();
    rCall.close();
    metric("malformed", malformed);
    metric("well-formed", wellFormed);
    metric("typed calls executed", tyRan);
    metric("typed calls refused", tyErr);
    metric("results converted", convertible);
    metric("results not converted", notConvertible);
    if (malformed >= 2 && wellFormed >= 2) nontrivial();
}
