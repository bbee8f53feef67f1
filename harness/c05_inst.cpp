// C05, with the library's own threads among the participants: whoever follows the lock protocol has a queue for himself.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
#include "shared_memory.h"
#include <string.h>
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C05";
    i.watchdogMs = 90000;
    i.rule = "With instances: a served channel (in this process or another one) with a lock timeout of 1..40 ms, 0..3 instances that call it from threads of their own, and 1..3 further participants that lock its call or response queue, "
             "push well-formed messages and announce them inside or after the lock, and keep the lock for up to four lock timeouts. While a participant is inside, the bytes of the region do not change and nobody else gets the lock; every accepted call is "
             "executed exactly once, a failed call at most once. Non-trivial: a lock was held longer than the lock timeout while a message was announced.";
}
Case vpGenerate(Rng& r, int64_t, bool) {
    Case c;
    c.cfg["child"] = r.chance(1, 2);
    c.cfg["lt"] = r.chance(1, 3) ? r.range(1, 3) : r.range(4, 40);
    c.cfg["cap"] = r.chance(1, 4) ? r.range(1, 3) : r.range(4, 60);
    c.cfg["size"] = r.range(150, 900);
    c.cfg["clients"] = r.below(4);
    c.cfg["perturb"] = r.chance(1, 2) ? r.range(10, 200) : 0;
    c.cfg["maxus"] = r.range(5, 300);
    const int64_t h = r.range(1, 3), n = r.range(2, 14);
    for (int64_t i = 0; i < n; i++) {
        // participant, queue (call / response), messages, announced when, held for (percent of the lock timeout), pause before
        c.ops.push_back(Op("hold", {r.below(h), r.chance(2, 3) ? 0 : 1, r.below(4), r.below(3), r.chance(1, 3) ? 0 : r.range(50, 400), r.chance(1, 2) ? 0 : r.range(0, 20000)}));
    }
    for (int64_t i = r.range(0, 12); i > 0; i--) c.ops.push_back(Op("call", {r.below(3), r.below(400), r.chance(1, 2) ? 0 : r.range(0, 20000)}));
    return c;
}
bool vpValid(const Case& c) { return c.get("lt") >= 1 && c.get("cap") >= 1 && c.get("size") >= 150; }

namespace {
const int kMax = 4096;
struct Sh {
    std::atomic<int> up, stop, down;
    std::atomic<int> ran[kMax];
    std::atomic<int> wrong;
};
Sh* S;

void serve(const Case& c, const std::string& ch) {
    Veigar v;
    v.bind("put", [](uint32_t tok, std::string body) {
        if (tok >= (uint32_t)kMax || body != payload(tok, (int64_t)body.size())) S->wrong++;
        else S->ran[tok]++;
        return tok * 3 + 1;
    });
    v.setTimeoutOfRWLock((uint32_t)c.get("lt"));
    if (!v.init(ch, (uint32_t)c.get("cap"), (uint32_t)c.get("size"))) fail("the server cannot be initialised");
    if (c.get("perturb")) vpw::perturb(caseSeed() + 77, (int)c.get("perturb"), (int)c.get("maxus"));
    S->up = 1;
    while (!S->stop.load()) sleepUs(500);
    v.uninit();
    S->down = 1;
}
std::string bytesOf(veigar::SharedMemory& m) { return std::string((const char*)m.data(), (size_t)m.size()); }
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const std::string ch = prefix() + "s", me = prefix() + "x";
    phase("setup");
    raw::Queue answers;
    VP_CHECK(answers.create(me + "_resp", 200, 200), "the answer queue");
    Proc p;
    std::thread server;
    if (c.get("child")) p = Proc::start([&] { serve(c, ch); });
    else server = std::thread([&] { serve(c, ch); });
    VP_CHECK(waitFor(20000, [&] { return S->up.load() == 1; }), "the server does not start");
    const int64_t lt = c.get("lt");
    std::atomic<int> nextTok{1}, longHolds{0}, holds{0}, failed{0}, good{0};
    std::vector<int> accepted;  // raw calls
    std::mutex am;
    std::map<int64_t, std::vector<Op>> plan, callPlan;
    for (auto& o : c.ops) (o.k == "hold" ? plan : callPlan)[o.k == "hold" ? o.at(0) : c.get("clients") ? o.at(0) % c.get("clients") : 0].push_back(o);
    phase("running");
    std::vector<std::thread> th;
    std::atomic<int> inside[2] = {{0}, {0}};
    for (auto& pl : plan) th.emplace_back([&, pl] {
        raw::Queue q[2], other[2];
        std::unique_ptr<veigar::SharedMemory> mem[2];
        for (int k = 0; k < 2; k++) {
            const std::string path = ch + (k ? "_resp" : "_call");
            if (!q[k].open(path) || !other[k].open(path)) fail("a participant cannot open the queue");
            mem[k].reset(new veigar::SharedMemory(path + "_shm", 0));
            if (!mem[k]->open()) fail("a participant cannot open the region");
        }
        int seq = 0;
        for (auto& o : pl.second) {
            const int k = (int)o.at(1);
            seq++;
            sleepUs(o.at(5));
            if (!q[k].q->processRWLock(30000)) fail("the lock was not obtained within 30 s");
            if (++inside[k] != 1) fail("two participants are inside the lock of one queue");
            holds++;
            int toAnnounce = 0;
            for (int64_t i = 0; i < o.at(2); i++) {
                std::string m;
                int tok = 0;
                if (k == 0) {
                    tok = nextTok++;
                    if (tok >= kMax) break;
                    m = mref::encode(raw::callNode("raw" + std::to_string(pl.first) + "_" + std::to_string(seq) + "_" + std::to_string(i), me, "put",
                                                   {mref::Node::uinteger((uint64_t)tok), mref::Node::str(payload((uint64_t)tok, (tok * 37) % 60))}), nullptr);
                } else m = mref::encode(raw::answerNode("nobody" + std::to_string(seq), mref::Node::nil(), mref::Node::nil()), nullptr);
                bool waitable = false;
                if (!q[k].q->checkSpaceSufficient((int64_t)m.size(), waitable)) break;
                if (!q[k].q->pushBack(m.data(), (int64_t)m.size())) fail("there is space but the push is refused");
                if (tok) { std::lock_guard<std::mutex> g(am); accepted.push_back(tok); }
                if (o.at(3) == 0) q[k].q->notifyRead();
                else toAnnounce++;
            }
            if (o.at(3) == 1) for (; toAnnounce > 0; toAnnounce--) q[k].q->notifyRead();
            const std::string before = bytesOf(*mem[k]);
            const int64_t us = o.at(4) * lt * 10;
            const int64_t end = nowUs() + us;
            if (us > lt * 1000 && o.at(2) && o.at(3) < 2) longHolds++;
            do {
                if (other[k].q->processRWLock(0)) fail(strf("the lock of the %s queue was obtained by a second participant while a first one is inside", k ? "response" : "call"));
                if (us) sleepUs(std::min<int64_t>(us, 2000));
            } while (nowUs() < end);
            if (bytesOf(*mem[k]) != before) fail(strf("the %s queue was changed while a participant is inside its lock", k ? "response" : "call"));
            --inside[k];
            q[k].q->processRWUnlock();
            for (; toAnnounce > 0; toAnnounce--) q[k].q->notifyRead();
        }
        for (int k = 0; k < 2; k++) { mem[k]->close(); q[k].close(); other[k].close(); }
    });
    std::vector<std::unique_ptr<Veigar>> cl;
    std::mutex rm;
    std::vector<std::pair<int, int>> results;  // token, success
    for (int64_t i = 0; i < c.get("clients"); i++) {
        cl.emplace_back(new Veigar());
        cl.back()->setTimeoutOfRWLock((uint32_t)lt);
        VP_CHECK(cl.back()->init(prefix() + "c" + std::to_string(i), (uint32_t)c.get("cap"), (uint32_t)c.get("size")), "a client cannot be initialised");
        Veigar* v = cl.back().get();
        th.emplace_back([&, v, i] {
            for (auto& o : callPlan[i]) {
                sleepUs(o.at(2));
                int tok = nextTok++;
                if (tok >= kMax) break;
                CallResult r = v->syncCall(ch, 5000, "put", (uint32_t)tok, payload((uint64_t)tok, std::min<int64_t>(o.at(1), c.get("size") - 140)));
                if (r.isSuccess()) {
                    uint32_t x = 0;
                    if (!r.convertObject(x) || x != (uint32_t)tok * 3 + 1) fail("a call got the result of another one");
                    good++;
                } else failed++;
                std::lock_guard<std::mutex> g(rm);
                results.emplace_back(tok, r.isSuccess());
            }
        });
    }
    for (auto& t : th) t.join();
    phase("draining");
    waitFor(20000, [&] { for (int t : accepted) if (!S->ran[t].load()) return false; return true; });
    for (int t : accepted) if (!S->ran[t].load()) fail(strf("an accepted and announced call was not executed within 20 s (%zu were accepted)", accepted.size()));
    raw::Queue q[2];
    for (int k = 0; k < 2; k++) {
        VP_CHECK(q[k].open(ch + (k ? "_resp" : "_call")), "cannot open the queue");
        VP_CHECK(waitFor(20000, [&] { return q[k].number() == 0; }), "messages stay in the %s queue", k ? "response" : "call");
        VP_CHECK(q[k].q->processRWLock(20000), "the lock is not obtained any more");
        VP_CHECK(!q[k].q->processRWLock(0), "the lock of the %s queue admits two participants", k ? "response" : "call");
        q[k].q->processRWUnlock();
        q[k].close();
    }
    for (auto& v : cl) v->uninit();
    S->stop = 1;
    if (c.get("child")) {
        int st = p.wait(30000);
        if (st != 0) fail(strf("the server ended with %d", st));
    } else server.join();
    vpw::perturbOff();
    for (int t : accepted) VP_CHECK(S->ran[t].load() == 1, "an accepted call was executed %d times", S->ran[t].load());
    for (auto& x : results) {
        int n = S->ran[x.first].load();
        VP_CHECK(n <= 1, "a call was executed %d times", n);
        VP_CHECK(!x.second || n == 1, "a successful call was not executed");
    }
    VP_CHECK(S->wrong.load() == 0, "a function received other arguments than were sent");
    std::set<std::string> seen;
    std::string m;
    while (answers.pop(m, 0)) {
        size_t off = 0;
        mref::Node n;
        VP_CHECK(mref::decode(m, off, n) == mref::OK && n.c.size() == 4 && seen.insert(n.c[1].s).second, "a raw call was answered twice or badly: %s", hex(m, 100).c_str());
    }
    answers.close();
    metric("locks held by participants", holds.load());
    metric("held longer than the lock timeout", longHolds.load());
    metric("calls answered", good.load());
    metric("calls failed", failed.load());
    if (longHolds.load()) nontrivial();
}
