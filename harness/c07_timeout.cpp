// C07: a synchronous call returns when its timeout has passed.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;
using mref::Node;

enum { SLOW, NEVER, STOPPED, KILLED, FULLQ, CALLLOCK, RESPLOCK, RAWPEER, NOBS };
static const char* kObs[] = {"slow function", "functions that never return", "stopped process", "killed process", "full queue", "lock of the call queue held", "lock of the response queue held", "raw peer that answers late, twice or never"};

void vpInfo(Info& i) {
    i.id = "C07";
    i.watchdogMs = 60000;
    i.rule = "A case is an obstruction of a target channel (slow or never returning functions, a stopped or killed process, a full queue, a held queue lock, a raw peer that answers late, twice or never) and 1..4 threads with 1..5 "
             "synchronous calls each with timeouts from 1 ms to 2^32-1 ms, to that channel and to an unobstructed one, and calls after the obstruction has gone. The duration of every call is measured. Non-trivial: at least one call "
             "was not answered in time, or had a timeout above 2^31 microseconds.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["obs"] = idx < NOBS ? idx : r.below(NOBS);
    c.cfg["threads"] = c.cfg["obs"] == SLOW || c.cfg["obs"] == RAWPEER ? 1 : r.range(1, 4);
    c.cfg["lockms"] = r.pick(std::vector<int64_t>{5, 30, 30, 100, 1000, 20000});
    if (c.cfg["obs"] == CALLLOCK || c.cfg["obs"] == RESPLOCK) c.cfg["lockms"] = r.pick(std::vector<int64_t>{5, 30, 100, 300});
    c.cfg["cap"] = r.range(2, 30);
    c.cfg["hold"] = r.range(20, 600);
    c.cfg["perturb"] = r.chance(1, 3) ? r.range(5, 100) : 0;
    static const std::vector<int64_t> ts = {1, 5, 20, 50, 100, 150, 300, 500};
    static const std::vector<int64_t> huge = {4294967295ll, 2147483648ll, 4294968, 2147484, 3000000, 100000};
    int64_t n = r.range(1, 5);
    for (int64_t t = 0; t < c.cfg["threads"]; t++)
        for (int64_t i = 0; i < n; i++) {
            int64_t T = r.pick(ts), d = 0;
            switch (r.below(5)) {
                case 0: d = T + r.pick(std::vector<int64_t>{1, 5, 30, 400}); break;   // answered too late (maybe just so)
                case 1: d = T + 350 + r.below(100); break;
                case 2: T = r.range(500, 900); d = r.below(80); break;                 // answered in time
                case 3: T = r.pick(huge); d = r.below(60); break;
                default: d = std::max<int64_t>(0, T - r.below(8)); break;              // close
            }
            if (c.cfg["obs"] != SLOW && c.cfg["obs"] != RAWPEER && T > 2000) T = r.pick(ts);
            // thread, timeout, duration of the function, to the unobstructed channel, raw answers
            c.ops.push_back(Op("call", {t, T, d, r.chance(1, 4) ? 1 : 0, r.below(4)}));
        }
    return c;
}
bool vpValid(const Case& c) { return c.get("threads") >= 1 && c.get("threads") <= 6 && c.get("cap") >= 1; }

namespace {
struct Sh {
    std::atomic<int> ready, release, running, started;
    std::atomic<bool> quit;
};
Sh* S;
std::string chA() { return prefix() + "a"; }
std::string chX() { return prefix() + "x"; }
std::string chH() { return prefix() + "h"; }

void bindAll(Veigar& v) {
    VP_CHECK(v.bind("work", [](uint64_t tok, int64_t ms) {
        S->running++;
        S->started++;
        sleepUs(ms * 1000);
        S->running--;
        return tok * 3 + 1;
    }), "bind");
    VP_CHECK(v.bind("never", [](uint64_t tok) {
        S->running++;
        S->started++;
        waitFor(40000, [] { return S->release.load() > 0; }, 1000);
        S->running--;
        return tok;
    }), "bind");
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int obs = (int)(c.get("obs") % NOBS);
    const uint32_t cap = (uint32_t)std::max<int64_t>(1, c.get("cap"));
    const bool child = obs == STOPPED || obs == KILLED;
    Proc px;
    if (child) {
        px = Proc::start([&] {
            Veigar x;
            bindAll(x);
            x.setTimeoutOfRWLock(20000);
            if (!x.init(chX(), cap, 512)) _exit(9);
            S->ready = 1;
            waitFor(50000, [] { return S->quit.load(); }, 2000);
            x.uninit();
        });
        if (!waitFor(20000, [] { return S->ready.load() == 1; })) discard("the target process did not start");
    }
    if (c.get("perturb")) vpw::perturb(caseSeed(), (int)c.get("perturb"), 300);
    Veigar a, x, h, helper;
    a.setTimeoutOfRWLock((uint32_t)std::max<int64_t>(1, c.get("lockms")));
    for (Veigar* v : {&x, &h, &helper}) v->setTimeoutOfRWLock(20000);
    bindAll(h);
    VP_CHECK(a.init(chA(), 30, 1024) && h.init(chH(), 30, 1024), "init failed");
    raw::Queue rawCall, rawA, lockQ;
    if (obs == RAWPEER) {
        VP_CHECK(rawCall.create(chX() + "_call", 100, 1024) && rawA.open(chA() + "_resp"), "raw queues");
    } else if (!child) {
        bindAll(x);
        VP_CHECK(x.init(chX(), cap, 512), "init failed");
    }
    std::atomic<uint64_t> tok{1};
    std::atomic<int> lateOnes{0}, hugeOnes{0}, okOnes{0};
    std::atomic<int64_t> worst{0};
    const bool quietLock = c.get("lockms") >= 1000;

    // One timed call.
    auto timed = [&](const std::string& ch, const char* fn, int64_t T, int64_t d, bool mustSucceed, bool mustFail, const char* what, int64_t arg = -1) {
        uint64_t k = tok++;
        int64_t t0 = nowUs();
        CallResult cr = strcmp(fn, "work") == 0 ? a.syncCall(ch, (uint32_t)T, fn, k, arg >= 0 ? arg : d) : a.syncCall(ch, (uint32_t)T, fn, k);
        int64_t el = (nowUs() - t0) / 1000;
        std::string how = strf("a synchronous call (%s, obstruction: %s, timeout %lld ms, function takes %lld ms)", what, kObs[obs], (long long)T, (long long)d);
        if (el > T + 6000) fail(how + strf(" returned after %lld ms: ", (long long)el) + describe(cr));
        if (el > T + 300) failTiming(how + strf(" returned after %lld ms: ", (long long)el) + describe(cr));
        worst = std::max(worst.load(), el - T);
        if (cr.isSuccess()) {
            uint64_t v = 0;
            if (!cr.convertObject(v) || v != (strcmp(fn, "work") == 0 ? k * 3 + 1 : k)) fail(how + ": returned the answer to another call");
            if (mustFail) fail(how + ": succeeded although no answer can have arrived in time");
            okOnes++;
        } else {
            if (cr.errorMessage.empty()) fail(how + ": failed without an explanation");
            if (mustSucceed) {
                std::string m = how + strf(" failed after %lld ms although its answer arrives in time: ", (long long)el) + describe(cr);
                if (d + 5000 < T) fail(m);
                failTiming(m);
            }
            lateOnes++;
        }
        if (T > 2147483) hugeOnes++;
    };

    std::atomic<bool> over{false};
    std::vector<std::thread> bg;
    std::vector<std::shared_ptr<AsyncCallResult>> fillers;
    phase(strf("obstruction: %s", kObs[obs]));
    switch (obs) {
        case NEVER: break;  // the calls themselves block the dispatchers
        case STOPPED:
            if (c.get("hold") % 2) { kill(px.pid, SIGSTOP); }
            else bg.emplace_back([&] { sleepUs(c.get("hold") * 300); kill(px.pid, SIGSTOP); });
            break;
        case KILLED: bg.emplace_back([&] { sleepUs(c.get("hold") * 500); px.kill(); }); break;
        case FULLQ: {
            VP_CHECK(helper.init(prefix() + "y", 100, 512), "init failed");
            for (int i = 0; i < 3; i++) fillers.push_back(helper.asyncCall(chX(), 50000, "never", (uint64_t)tok++));
            if (!waitFor(15000, [&] { return S->running.load() >= 3; })) discard("the target is not blocked");
            for (uint32_t i = 0; i < cap; i++) fillers.push_back(helper.asyncCall(chX(), 50000, "work", (uint64_t)tok++, (int64_t)0));
            raw::Queue q;
            VP_CHECK(q.open(chX() + "_call"), "cannot open the queue");
            if (!waitFor(15000, [&] { return q.number() >= (int64_t)cap; })) discard("the queue is not full");
            q.close();
            break;
        }
        case CALLLOCK: case RESPLOCK:
            VP_CHECK(lockQ.open(obs == CALLLOCK ? chX() + "_call" : chA() + "_resp"), "cannot open the queue");
            bg.emplace_back([&] {
                while (!over) {
                    if (!lockQ.q->processRWLock(20000)) continue;
                    sleepUs(c.get("hold") * 1000);
                    lockQ.q->processRWUnlock();
                    sleepUs(3000);
                }
            });
            break;
        case RAWPEER:
            bg.emplace_back([&] {
                std::string m;
                while (!over) {
                    if (!rawCall.pop(m, 10)) continue;
                    size_t off = 0;
                    Node n;
                    if (mref::decode(m, off, n) != mref::OK || n.c.size() != 5 || n.c[4].c.size() != 2) fail("a sent call is malformed: " + hex(m, 80));
                    std::string id = n.c[1].s;
                    uint64_t k = n.c[4].c[0].u;
                    int64_t d = (int64_t)n.c[4].c[1].u % 1000000;
                    int times = (int)(n.c[4].c[1].u / 1000000);   // 0 never, 1 once, 2 twice
                    std::thread([&rawA, id, k, d, times] {
                        S->running++;
                        sleepUs(d * 1000);
                        for (int i = 0; i < times; i++) rawA.tryPush(mref::encode(raw::answerNode(id, Node::nil(), Node::uinteger(k * 3 + 1))), 20000);
                        S->running--;
                    }).detach();
                }
            });
            break;
        default: break;
    }
    phase(strf("calls, obstruction: %s", kObs[obs]));
    std::vector<std::thread> th;
    const int nt = (int)c.get("threads");
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
        for (auto& o : c.ops) {
            if (o.k != "call" || o.at(0) % nt != t) continue;
            int64_t T = std::max<int64_t>(1, o.at(1)), d = std::min<int64_t>(2000, o.at(2));
            if (o.at(3)) {
                // to the unobstructed channel: in time unless locks are disturbed
                timed(chH(), "work", 20000, 0, quietLock && obs != RESPLOCK, false, "to an unobstructed channel");
                continue;
            }
            switch (obs) {
                case SLOW:
                    waitFor(5000, [] { return S->running.load() == 0; });   // functions of calls that timed out
                    timed(chX(), "work", T, d, quietLock && d + 400 < T, d >= T + 5, "to the slow function");
                    break;
                case NEVER: timed(chX(), "never", T % 1000 + 1, 99999, false, true, "to a function that never returns"); break;
                case FULLQ: timed(chX(), "work", T % 1000 + 1, 0, false, true, "to the full queue"); break;
                case RAWPEER: {
                    int times = (int)(o.at(4) % 3);
                    if (T >= 100000 && times == 0) T = 50;
                    if (T >= 100000) d = d % 60;
                    timed(chX(), "work", T, d, quietLock && times > 0 && d + 400 < T, times == 0 || d >= T + 5, times == 0 ? "to a silent raw peer" : times == 1 ? "to a raw peer" : "to a raw peer that answers twice", (int64_t)times * 1000000 + d);
                    break;
                }
                default: timed(chX(), "work", T % 1000 + 1, d % 30, false, false, "to the obstructed channel"); break;
            }
        }
    });
    for (auto& t : th) t.join();
    phase("afterwards");
    S->release = 1;
    over = true;
    if (obs == STOPPED) {
        for (auto& t : bg) t.join();
        bg.clear();
        timed(chX(), "work", 60, 0, false, false, "to the stopped process");
        kill(px.pid, SIGCONT);
    }
    for (auto& t : bg) t.join();
    bg.clear();
    // late answers arrive now and must not disturb anything
    if (obs != KILLED) waitFor(10000, [] { return S->running.load() == 0; }, 1000);
    a.setTimeoutOfRWLock(20000);
    if (obs == RAWPEER) {
        // the raw peer is gone, another instance takes the channel
        sleepUs(2000);
        rawCall.close();
        bindAll(x);
        VP_CHECK(x.init(chX(), cap, 512), "init failed");
    }
    if (obs != KILLED) {
        for (int i = 0; i < 3; i++) timed(chX(), "work", 20000, i, true, false, "after the obstruction");
    } else {
        for (int i = 0; i < 2; i++) timed(chX(), "work", 40, i, false, true, "to the dead channel");
    }
    if (obs != KILLED) for (int i = 0; i < 2; i++) timed(chH(), "work", 20000, i, true, false, "to the unobstructed channel");
    for (auto& f : fillers)
        if (f->second.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail("a call queued before was not completed after the obstruction had gone");
    phase("end");
    S->quit = true;
    if (px.pid > 0) px.wait(20000);
    a.uninit();
    helper.uninit();
    x.uninit();
    h.uninit();
    vpw::perturbOff();
    label(kObs[obs]);
    metric("not answered in time", lateOnes);
    metric("answered", okOnes);
    metric("huge timeouts", hugeOnes);
    if (lateOnes || hugeOnes) nontrivial();
}
