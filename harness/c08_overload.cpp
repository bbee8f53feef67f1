// C08: overload delays calls but never wedges a channel.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C08";
    i.watchdogMs = 90000;
    i.rule = "A case is 1..3 processes whose threads issue 20..400 calls (synchronous, promise, callback; patient and impatient ones) to a target with a queue of 1..8 messages and functions of 0..3 ms, optionally while the target's "
             "functions are held up, while somebody keeps taking the lock of its call queue for longer than the target's lock timeout, and with response queues just as small. Afterwards everybody calls everybody. "
             "Non-trivial: the call queue was seen full or the reader's lock was contended, and at least 20 calls were made.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["procs"] = r.weighted({0, 5, 2, 1});
    c.cfg["inst"] = r.range(1, 2);         // callers per process
    c.cfg["threads"] = r.range(1, 4);      // per caller
    c.cfg["tcap"] = r.chance(1, 3) ? 1 : r.range(2, 8);
    c.cfg["tsize"] = r.pick(std::vector<int64_t>{300, 400, 1000});
    c.cfg["ccap"] = r.chance(1, 3) ? r.range(1, 4) : r.range(5, 60);
    c.cfg["csize"] = r.pick(std::vector<int64_t>{300, 400, 1000});
    c.cfg["n"] = r.range(4, thorough ? 120 : 60);   // per thread
    c.cfg["fnus"] = r.chance(1, 2) ? 0 : r.range(100, 3000);
    c.cfg["held"] = r.chance(1, 3) ? r.range(30, 700) : 0;     // the functions are held up for so many ms
    c.cfg["locker"] = r.chance(1, 3) ? r.range(3, 60) : 0;     // somebody holds the lock of the target's call queue for so many ms at a time
    c.cfg["tlock"] = c.cfg["locker"] ? r.pick(std::vector<int64_t>{1, 2, 5, 30}) : r.pick(std::vector<int64_t>{30, 20000});
    c.cfg["rlocker"] = r.chance(1, 4) ? r.range(3, 40) : 0;    // somebody holds the lock of the first caller's response queue
    c.cfg["clock"] = c.cfg["rlocker"] ? r.pick(std::vector<int64_t>{1, 3, 10, 30}) : 60000;   // the callers' lock timeout
    if (c.cfg["rlocker"]) c.cfg["tlock"] = 20000, c.cfg["locker"] = 0;
    c.cfg["impatient"] = r.chance(1, 2) ? r.range(1, 50) : 0;  // percent
    c.cfg["style"] = r.below(4);
    c.cfg["perturb"] = r.chance(1, 3) ? r.range(5, 150) : 0;
    c.cfg["maxsize"] = r.pick(std::vector<int64_t>{0, 20, 100, 200});
    return c;
}
bool vpValid(const Case& c) { return c.get("procs") >= 1 && c.get("inst") >= 1 && c.get("threads") >= 1 && c.get("tcap") >= 1 && c.get("tsize") >= 300 && c.get("csize") >= 300 && c.get("ccap") >= 1 && c.get("n") >= 1 && c.get("tlock") >= 1 && c.get("clock", 60000) >= 1 && !(c.get("rlocker") && c.get("locker")) && (!c.get("rlocker") || c.get("tlock") >= 1000) && (c.get("rlocker") || c.get("clock", 60000) >= 20000); }

namespace {
const int kMax = 8192;
struct Sh {
    std::atomic<int> ready, done, gone, tok, hold, fullSeen, failed, answered, stop, lockTrouble;
    std::atomic<int> exec[kMax], outcome[kMax];   // outcome: 1 answered, 2 failed
};
Sh* S;
std::string chT() { return prefix() + "t"; }
std::string chC(int i) { return prefix() + "c" + std::to_string(i); }
typedef std::tuple<uint64_t, std::string> Ans;

void bindAll(Veigar& v, bool target, int64_t us) {
    VP_CHECK(v.bind("f", [=](uint64_t tok, std::string s) {
        if (target && tok < (uint64_t)kMax) {
            int n = ++S->exec[tok];
            if (n != 1) fail(strf("the function of call %llu ran %d times", (unsigned long long)tok, n));
            if (us) sleepUs(us);
            waitFor(20000, [] { return S->hold.load() == 0; }, 300);
        }
        return Ans(tok, s);
    }), "bind");
}
struct Tracker {
    std::atomic<int> open{0};
};
void verify(const CallResult& cr, uint64_t tok, const std::string& s, bool patient, const char* style) {
    if (cr.isSuccess()) {
        Ans a;
        try { a = cr.obj.get().as<Ans>(); } catch (...) { fail("an answer has the wrong type"); }
        if (std::get<0>(a) != tok || std::get<1>(a) != s) fail(strf("%s call %llu got the answer to call %llu", style, (unsigned long long)tok, (unsigned long long)std::get<0>(a)));
        if (tok < (uint64_t)kMax) {
            if (S->exec[tok] != 1) fail(strf("call %llu was answered without being executed", (unsigned long long)tok));
            if (S->outcome[tok].exchange(1) != 0) fail(strf("call %llu was completed twice", (unsigned long long)tok));
            S->answered++;
        }
    } else {
        if (patient && S->lockTrouble.load() && cr.errCode == ErrorCode::TIMEOUT && tok < (uint64_t)kMax) {
            // the lock was not obtained: then the call was not delivered either
            if (S->outcome[tok].exchange(3) != 0) fail(strf("call %llu was completed twice", (unsigned long long)tok));
            S->failed++;
            return;
        }
        if (patient) fail(strf("%s call %llu failed although it had time to wait: %s", style, (unsigned long long)tok, describe(cr).c_str()));
        if (cr.errorMessage.empty()) fail("a failed call has no explanation");
        if (tok < (uint64_t)kMax && S->outcome[tok].exchange(2) != 0) fail(strf("call %llu was completed twice", (unsigned long long)tok));
        S->failed++;
    }
}
void callers(const Case& c, int proc, int procs) {
    const int ni = (int)c.get("inst"), nt = (int)c.get("threads");
    if (c.get("perturb")) vpw::perturb(caseSeed() + (uint64_t)proc, (int)c.get("perturb"), 400);
    std::vector<std::unique_ptr<Veigar>> v;
    for (int i = 0; i < ni; i++) {
        v.emplace_back(new Veigar());
        v.back()->setTimeoutOfRWLock((uint32_t)c.get("clock", 60000));
        bindAll(*v.back(), false, 0);
        VP_CHECK(v.back()->init(chC(proc * ni + i), (uint32_t)c.get("ccap"), (uint32_t)c.get("csize")), "init failed");
    }
    S->ready++;
    if (!waitFor(40000, [&] { return S->ready.load() >= procs + 1; })) discard("start");
    std::thread rl;
    if (proc == 0 && c.get("rlocker")) rl = std::thread([&] {
        raw::Queue k;
        if (!k.open(chC(0) + "_resp")) fail("cannot open the response queue");
        Rng r(caseSeed() + 3);
        int64_t t0 = nowUs();
        while (nowUs() - t0 < 1000000 && S->done.load() < procs) {
            if (!k.q->processRWLock(20000)) continue;
            sleepUs(c.get("rlocker") * 1000);
            k.q->processRWUnlock();
            sleepUs(r.range(500, 4000));
        }
        k.close();
    });
    phase("load");
    std::atomic<int> cbOpen{0};
    std::vector<std::thread> th;
    for (int t = 0; t < ni * nt; t++) th.emplace_back([&, t] {
        Veigar& a = *v[(size_t)(t % ni)];
        Rng r(caseSeed() * 13 + (uint64_t)(proc * 100 + t));
        struct P { std::shared_ptr<AsyncCallResult> x; uint64_t tok; std::string s; bool patient; };
        std::vector<P> ps;
        for (int64_t i = 0; i < c.get("n"); i++) {
            uint64_t tok = (uint64_t)S->tok++;
            if (tok >= (uint64_t)kMax) discard("too many calls");
            bool patient = r.range(1, 100) > c.get("impatient");
            uint32_t T = patient ? 70000 : (uint32_t)r.range(1, 60);
            std::string s = payload(tok, r.range(0, std::max<int64_t>(0, std::min<int64_t>(c.get("maxsize"), std::min(c.get("tsize") * c.get("tcap"), c.get("csize") * c.get("ccap")) - 250))));
            int style = c.get("style") == 3 ? (int)r.below(3) : (int)c.get("style");
            if (style == 0) verify(a.syncCall(chT(), T, "f", tok, s), tok, s, patient, "synchronous");
            else if (style == 1) ps.push_back(P{a.asyncCall(chT(), T, "f", tok, s), tok, s, patient});
            else {
                cbOpen++;
                a.asyncCall([&cbOpen, tok, s, patient](const CallResult& cr) { verify(cr, tok, s, patient, "callback"); cbOpen--; }, chT(), T, "f", tok, s);
            }
        }
        for (auto& p : ps) {
            if (p.x->second.wait_for(std::chrono::seconds(70)) != std::future_status::ready) fail(strf("promise call %llu was never completed", (unsigned long long)p.tok));
            verify(p.x->second.get(), p.tok, p.s, p.patient, "promise");
            a.releaseCall(p.x->first);
        }
    });
    for (auto& t : th) t.join();
    if (!waitFor(70000, [&] { return cbOpen.load() == 0; })) fail(strf("%d callback calls were never completed", cbOpen.load()));
    S->done++;
    waitFor(80000, [&] { return S->done.load() >= procs && S->stop.load(); });
    phase("afterwards");
    if (rl.joinable()) rl.join();
    for (auto& x : v) x->setTimeoutOfRWLock(20000);
    // the load is over: everybody calls everybody
    for (int i = 0; i < ni; i++)
        for (int j = -1; j < procs * ni; j++) {
            CallResult cr = v[(size_t)i]->syncCall(j < 0 ? chT() : chC(j), 30000, "f", (uint64_t)kMax + 5, std::string("after"));
            verify(cr, (uint64_t)kMax + 5, "after", true, "later");
        }
    S->gone++;
    waitFor(60000, [&] { return S->gone.load() >= procs; });
    for (auto& x : v) x->uninit();
    vpw::perturbOff();
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int procs = (int)c.get("procs");
    if (c.get("held")) S->hold = 1;
    S->lockTrouble = c.get("rlocker") ? 1 : 0;
    std::vector<Proc> ps;
    for (int p = 1; p < procs; p++) ps.push_back(Proc::start([&, p] { callers(c, p, procs); }));
    Veigar t;
    t.setTimeoutOfRWLock((uint32_t)c.get("tlock"));
    bindAll(t, true, c.get("fnus"));
    VP_CHECK(t.init(chT(), (uint32_t)c.get("tcap"), (uint32_t)c.get("tsize")), "init failed");
    raw::Queue q, lk;
    VP_CHECK(q.open(chT() + "_call") && lk.open(chT() + "_call"), "cannot open the queue");
    std::atomic<bool> over{false};
    std::thread mon([&] {
        int64_t t0 = nowUs();
        while (!over) {
            if (!c.get("locker")) {
                if (q.number() >= c.get("tcap")) S->fullSeen++;
            }
            if (S->hold && nowUs() - t0 > c.get("held") * 1000) S->hold = 0;
            sleepUs(500);
        }
    });
    std::thread locker;
    std::atomic<int> locked{0};
    if (c.get("locker")) locker = std::thread([&] {
        Rng r(caseSeed());
        int64_t t0 = nowUs();
        while (!over && nowUs() - t0 < 1500000) {
            if (!lk.q->processRWLock(20000)) continue;
            sleepUs(c.get("locker") * 1000);
            lk.q->processRWUnlock();
            locked++;
            sleepUs(r.range(500, 4000));
        }
    });
    S->ready++;
    std::thread watcher([&] {
        waitFor(80000, [&] { return S->done.load() >= procs; });
        over = true;
        // everything delivered is processed
        phase("draining");
        if (!waitFor(20000, [&] { return q.number() == 0; }, 500)) fail(strf("%lld messages stay in the call queue although the load is over", (long long)q.number()));
        S->stop = 1;
    });
    callers(c, 0, procs);
    watcher.join();
    mon.join();
    if (locker.joinable()) locker.join();
    for (auto& p : ps) {
        int st = p.wait(30000);
        if (st != 0) fail(strf("a process ended with %d", st));
    }
    phase("end");
    // messages of impatient calls may still have been executed, never twice (checked when executed)
    int n = S->tok.load();
    for (int i = 0; i < n && i < kMax; i++) {
        VP_CHECK(S->outcome[i].load() != 0, "call %d was never completed", i);
        VP_CHECK(S->outcome[i].load() != 3 || S->exec[i].load() == 0, "call %d was executed but its answer got lost", i);
    }
    t.uninit();
    q.close();
    lk.close();
    metric("calls", n);
    metric("failed in time", S->failed.load());
    metric("queue seen full", S->fullSeen.load());
    metric("lock held", locked);
    if (c.get("held")) label("functions held up");
    if (c.get("locker")) label("reader's lock contended");
    if (c.get("rlocker")) label("response reader's lock contended");
    if (n >= 20 && (c.get("rlocker") || S->fullSeen.load() || locked > 0)) nontrivial();
}
