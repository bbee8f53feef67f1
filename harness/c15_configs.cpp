// C15: peers with different queue settings interoperate.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C15";
    i.watchdogMs = 90000;
    i.rule = "A case is 2..4 instances with capacities of 1..400 messages and message sizes of 40..70000 bytes, in one or two processes, that call each other with arguments and results of 0 bytes to more than the queues hold, often exactly "
             "at the boundary (the size on the wire is computed by the reference codec), one at a time and from several threads, with instances that restart with other settings in between. Each call has an exact expectation. "
             "Non-trivial: two instances with different settings exchanged messages larger than one of their message sizes, and at least 8 calls were made.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    int64_t n = r.range(2, 4);
    c.cfg["n"] = n;
    c.cfg["far"] = r.chance(1, 3);   // the last instance lives in another process
    for (int64_t i = 0; i < n; i++) {
        int64_t cap, size;
        switch (r.below(5)) {
            case 0: cap = 1, size = r.pick(std::vector<int64_t>{500, 1000, 4096, 70000}); break;
            case 1: cap = r.range(2, 6), size = r.range(300, 1500); break;
            case 2: cap = r.range(20, 400), size = r.range(40, 200); break;
            case 3: cap = r.range(2, 40), size = r.range(1000, 20000); break;
            default: cap = r.range(2, 20), size = r.pick(std::vector<int64_t>{255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097}); break;
        }
        if (r.chance(1, 5)) cap = r.range(1, 6), size = std::max<int64_t>(8, r.range(30, 250) / cap);   // hardly anything fits, perhaps not even the shortest answer
        c.ops.push_back(Op("inst", {cap, size}));
    }
    int64_t m = r.range(8, thorough ? 80 : 40);
    for (int64_t i = 0; i < m; i++) {
        switch (r.weighted({8, 3, 6, 3, 2, 1})) {
            case 0: c.ops.push_back(Op("call", {r.below(n), r.below(n), r.below(3), r.small(30000)})); break;          // argument of a size
            case 1: c.ops.push_back(Op("result", {r.below(n), r.below(n), r.below(3), r.small(30000)})); break;        // result of a size
            case 2: c.ops.push_back(Op("calledge", {r.below(n), r.below(n), r.below(3), r.range(-3, 3)})); break;       // argument at the edge of the target's queue
            case 3: c.ops.push_back(Op("resultedge", {r.below(n), r.below(n), r.below(3), r.range(-3, 3)})); break;     // result at the edge of the caller's queue
            case 4: c.ops.push_back(Op("burst", {r.range(2, 5), r.range(3, 12), r.range(0, 2000)})); break;
            default: c.ops.push_back(Op("restart", {r.below(n), r.range(1, 60), r.range(500, 3000)})); break;
        }
    }
    return c;
}
bool vpValid(const Case& c) {
    int n = 0;
    for (auto& o : c.ops) {
        if (o.k == "inst") { n++; if (o.at(0) < 1 || o.at(1) < 8) return false; }
        if (o.k == "restart" && o.at(1) < 1) return false;
        if (o.k == "restart" && o.at(2) < 500) return false;
    }
    return n == c.get("n") && n >= 2;
}

namespace {
struct Sh {
    std::atomic<int> up, stop, reqCap, reqSize, reqDone, reqSeen;
};
Sh* S;
std::string chan(int64_t i) { return prefix() + "i" + std::to_string((long long)i); }
void bindAll(Veigar& v) {
    VP_CHECK(v.bind("h", [](std::string s) -> uint64_t { return fnv(s); }), "bind");
    VP_CHECK(v.bind("r", [](uint64_t seed, int64_t n) -> std::string { return payload(seed, n); }), "bind");
    VP_CHECK(v.bind("e", [](std::string s) -> std::string { return s; }), "bind");
}
void start(Veigar& v, int64_t i, int64_t cap, int64_t size) {
    v.setTimeoutOfRWLock(20000);
    bindAll(v);
    VP_CHECK(v.init(chan(i), (uint32_t)cap, (uint32_t)size), "init of an instance with %lld x %lld failed", (long long)cap, (long long)size);
}
}  // namespace

void vpRun(const Case& c) {
    const int n = (int)c.get("n");
    S = shared<Sh>();
    std::vector<int64_t> cap, size;
    for (auto& o : c.ops) if (o.k == "inst") cap.push_back(o.at(0)), size.push_back(o.at(1));
    const bool far = c.get("far") != 0;
    Proc other;
    if (far) other = Proc::start([&] {
        Veigar v;
        start(v, n - 1, cap[(size_t)n - 1], size[(size_t)n - 1]);
        S->up = 1;
        while (!S->stop.load()) {
            sleepUs(300);
            if (S->reqSeen.load() != S->reqDone.load()) {
                v.uninit();
                start(v, n - 1, S->reqCap, S->reqSize);
                S->reqDone = S->reqSeen.load();
            }
        }
        v.uninit();
    });
    std::vector<std::unique_ptr<Veigar>> v;
    for (int i = 0; i < n; i++) {
        v.emplace_back(new Veigar());
        if (!(far && i == n - 1)) start(*v[(size_t)i], i, cap[(size_t)i], size[(size_t)i]);
    }
    if (far && !waitFor(60000, [] { return S->up.load() == 1; })) fail("the other process did not start");
    auto caller = [&](int64_t i) { return far && (i % n) == n - 1 ? 0 : i % n; };
    uint64_t seed = 1;
    int calls = 0, fit = 0, tooBig = 0, larger = 0;
    // Performs the call; the size of the call message must be compared with the target's queue, the one of the answer with the caller's.
    auto doCall = [&](int64_t i, int64_t j, const char* fn, std::vector<mref::Node> args, mref::Node result, std::function<std::shared_ptr<AsyncCallResult>()> send, std::function<void(CallResult&)> good, int style) {
        auto p = send();
        (void)style;
        std::string m = mref::encode(raw::callNode(p->first, chan(i), fn, args));
        std::string a = mref::encode(raw::answerNode(p->first, mref::Node::nil(), result));
        const int64_t tot = cap[(size_t)j] * size[(size_t)j], back = cap[(size_t)i] * size[(size_t)i];
        if (p->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) fail(strf("a call of %zu bytes to a queue of %lld x %lld (answer of %zu bytes, caller's queue %lld x %lld) was never completed", m.size(), (long long)cap[(size_t)j], (long long)size[(size_t)j], a.size(), (long long)cap[(size_t)i], (long long)size[(size_t)i]));
        CallResult r = p->second.get();
        v[(size_t)i]->releaseCall(p->first);
        calls++;
        const bool ok = (int64_t)m.size() <= tot && (int64_t)a.size() <= back;
        if ((int64_t)m.size() > size[(size_t)j] || (int64_t)a.size() > size[(size_t)i]) if (cap[(size_t)i] != cap[(size_t)j] || size[(size_t)i] != size[(size_t)j]) larger++;
        if (ok != r.isSuccess())
            fail(strf("a call of %zu bytes to a queue of %lld x %lld (answer of %zu bytes, caller's queue %lld x %lld) %s: %s", m.size(), (long long)cap[(size_t)j], (long long)size[(size_t)j], a.size(), (long long)cap[(size_t)i],
                      (long long)size[(size_t)i], ok ? "fits but failed" : "does not fit but succeeded", describe(r).c_str()));
        if (ok) good(r), fit++;
        else { if (r.errorMessage.empty()) fail("a failed call has no explanation"); tooBig++; }
    };
    auto withArg = [&](int64_t i, int64_t j, int64_t len, int style) {
        std::string s = payload(seed++, len);
        doCall(i, j, "h", {mref::Node::str(s)}, mref::Node::uinteger(fnv(s)), [&] { return v[(size_t)i]->asyncCall(chan(j), 30000, "h", s); }, [&](CallResult& r) {
            uint64_t h = 0;
            if (!r.convertObject(h) || h != fnv(s)) fail(strf("an argument of %lld bytes did not arrive intact", (long long)len));
        }, style);
    };
    auto withResult = [&](int64_t i, int64_t j, int64_t len, int style) {
        uint64_t sd = seed++;
        doCall(i, j, "r", {mref::Node::uinteger(sd), mref::Node::integer(len)}, mref::Node::str(payload(sd, len)), [&] { return v[(size_t)i]->asyncCall(chan(j), 30000, "r", sd, len); }, [&](CallResult& r) {
            std::string s;
            if (!r.convertObject(s) || s != payload(sd, len)) fail(strf("a result of %lld bytes did not arrive intact", (long long)len));
        }, style);
    };
    // length of a string so that a message with `rest` other bytes has about `total` bytes
    auto fill = [&](int64_t rest, int64_t total) {
        int64_t len = total - rest - 1;
        if (len >= 32) len -= 1;
        if (len >= 256) len -= 1;
        if (len >= 65536) len -= 2;
        return std::max<int64_t>(0, len);
    };
    int step = 0;
    for (auto& o : c.ops) {
        phase(strf("operation %d (%s)", step++, o.k.c_str()));
        if (o.k == "inst") continue;
        if (o.k == "restart") {
            int64_t i = o.at(0) % n;
            cap[(size_t)i] = o.at(1);
            size[(size_t)i] = o.at(2);
            if (far && i == n - 1) {
                S->reqCap = (int)o.at(1);
                S->reqSize = (int)o.at(2);
                S->reqSeen++;
                if (!waitFor(60000, [] { return S->reqDone.load() == S->reqSeen.load(); })) fail("the other process did not restart");
            } else {
                v[(size_t)i]->uninit();
                start(*v[(size_t)i], i, o.at(1), o.at(2));
            }
            label("restart");
            continue;
        }
        if (o.k == "burst") {
            std::vector<std::thread> th;
            for (int64_t t = 0; t < o.at(0); t++) th.emplace_back([&, t] {
                Rng r(caseSeed() + (uint64_t)t * 31 + (uint64_t)step);
                for (int64_t k = 0; k < o.at(1); k++) {
                    int64_t i = caller(r.below(n)), j = r.below(n);
                    // what certainly fits both
                    int64_t most = std::min(cap[(size_t)i] * size[(size_t)i], cap[(size_t)j] * size[(size_t)j]) - 250;
                    if (most < 0) continue;
                    std::string s = payload((uint64_t)(t * 1000 + k), std::min(r.range(0, o.at(2) + 1), most));
                    CallResult cr = v[(size_t)i]->syncCall(chan(j), 60000, "e", s);
                    std::string back;
                    if (!cr.isSuccess()) fail("a call that fits failed among others: " + describe(cr));
                    if (!cr.convertObject(back) || back != s) fail("a message was corrupted among others");
                }
            });
            for (auto& t : th) t.join();
            label("burst");
            continue;
        }
        int64_t i = caller(o.at(0)), j = o.at(1) % n;
        // everything but the string
        std::string id(50, 'x');
        if (o.k == "call") withArg(i, j, o.at(3), 0);
        else if (o.k == "result") withResult(i, j, o.at(3), 0);
        else if (o.k == "calledge") {
            // the id of the next call is as long as the one of a call just made (almost always)
            auto p = v[(size_t)i]->asyncCall(chan(j), 30000, "h", std::string());
            p->second.wait_for(std::chrono::seconds(40));
            v[(size_t)i]->releaseCall(p->first);
            int64_t rest = (int64_t)mref::encode(raw::callNode(p->first, chan(i), "h", {mref::Node::str("")})).size() - 1;
            withArg(i, j, fill(rest, cap[(size_t)j] * size[(size_t)j]) + o.at(3), 0);
            label("edge");
        } else if (o.k == "resultedge") {
            auto p = v[(size_t)i]->asyncCall(chan(j), 30000, "r", (uint64_t)1, (int64_t)0);
            p->second.wait_for(std::chrono::seconds(40));
            v[(size_t)i]->releaseCall(p->first);
            int64_t rest = (int64_t)mref::encode(raw::answerNode(p->first, mref::Node::nil(), mref::Node::str(""))).size() - 1;
            withResult(i, j, fill(rest, cap[(size_t)i] * size[(size_t)i]) + o.at(3), 0);
            label("edge");
        }
    }
    phase("end");
    if (far) {
        S->stop = 1;
        int st = other.wait(60000);
        if (st != 0) fail(strf("the other process ended with %d", st));
    }
    for (int i = 0; i < n; i++) if (!(far && i == n - 1)) v[(size_t)i]->uninit();
    metric("calls", calls);
    metric("fit", fit);
    metric("too big", tooBig);
    metric("larger than a message size", larger);
    if (larger && calls >= 8) nontrivial();
}
