// C10: a channel that restarts is reachable again by everyone.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;

// How a life ends.
enum Mode { ORDERLY, IDLE_KILL, QUEUED_KILL, CALL_LOCK_KILL, RESP_LOCK_KILL, INIT_STEP_KILL, TRAFFIC_STEP_KILL, UNINIT_STEP_KILL, TRAFFIC_TIME_KILL, EXIT, INPROC, MODES };
static const char* kMode[] = {"orderly", "killed idle", "killed with calls queued", "killed holding its call lock", "killed holding its answer lock", "killed at a step of init", "killed at a step of traffic",
                              "killed at a step of uninit", "killed at a moment of traffic", "exit without uninit", "instance of the callers' process"};

void vpInfo(Info& i) {
    i.id = "C10";
    i.watchdogMs = 120000;
    i.rule = "A case is a history of 2..6 lives of one channel, each with its own queue settings, ended in an orderly way, by SIGKILL when idle, with queued calls and running functions, while holding its own call or answer lock, right before or "
             "after the n-th synchronisation or resource step of its init, traffic or uninit, at a random moment of traffic, or by exiting. After each start old callers, a new caller and the channel itself call each other, and callers leave while their calls are being executed and are succeeded by others of the same name. "
             "Non-trivial: at least one life ended without uninit and a later one was called by a caller that had called the dead one.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["callers"] = r.range(1, 3);
    c.cfg["perturb"] = r.chance(1, 4) ? r.range(10, 100) : 0;
    c.cfg["lock"] = r.pick(std::vector<int64_t>{300, 600, 1000});
    int64_t n = r.range(2, thorough ? 8 : 5);
    for (int64_t k = 0; k < n; k++) {
        int64_t mode = r.weighted({3, 3, 4, 3, 3, 3, 5, 3, 3, 1, 3});
        int64_t step = mode == INIT_STEP_KILL ? r.range(1, 34) : mode == UNINIT_STEP_KILL ? r.range(1, 40) : r.range(1, r.chance(1, 2) ? 12 : 90);
        // mode, step or µs, after, capacity, size, calls queued, raw junk in the queues
        c.ops.push_back(Op("life", {mode, mode == TRAFFIC_TIME_KILL ? r.range(0, 4000) : step, r.below(2), r.chance(1, 3) ? r.range(4, 8) : r.range(9, 100), r.pick(std::vector<int64_t>{300, 400, 1000, 70000}), r.range(1, 7), r.below(3)}));
    }
    return c;
}
bool vpValid(const Case& c) {
    if (c.get("callers") < 1 || c.get("lock") < 300) return false;
    for (auto& o : c.ops) if (o.at(3) < 4 || o.at(4) < 300 || o.at(0) < 0 || o.at(0) >= MODES) return false;
    return true;
}

namespace {
const int kMax = 4096;
struct Sh {
    std::atomic<int> cmd, up, stop, dead, hold, holding, tok, armed, gone, kill;
    std::atomic<int> exec[kMax];   // life + 1 that ran it
    std::atomic<int> born[kMax];   // the life whose queue it was put into
};
Sh* S;
typedef std::tuple<uint64_t, int64_t> Ans;
std::string chX() { return prefix() + "x"; }
std::string chC(int i) { return prefix() + "c" + std::to_string(i); }

void bindX(Veigar& v, int life) {
    VP_CHECK(v.bind("f", [life](uint64_t tok, std::string s) -> Ans {
        if (tok < (uint64_t)kMax) {
            if (S->born[tok].load() != life) fail(strf("life %d executed call %llu that had been put into the queue of life %d", life, (unsigned long long)tok, S->born[tok].load()));
            int old = S->exec[tok].exchange(life + 1);
            if (old) fail(strf("call %llu ran twice (lives %d and %d)", (unsigned long long)tok, old - 1, life));
        }
        return Ans(tok, life);
    }) && v.bind("hold", [life](uint64_t tok) -> Ans {
        if (tok < (uint64_t)kMax && S->born[tok].load() != life) fail(strf("life %d executed call %llu that had been put into the queue of life %d", life, (unsigned long long)tok, S->born[tok].load()));
        S->holding++;
        waitFor(30000, [] { return S->hold.load() == 0; });
        return Ans(tok, life);
    }) && v.bind("nap", [](int64_t us) -> int64_t { sleepUs(us); return us; }), "bind");
}
void bindC(Veigar& v, int i) {
    VP_CHECK(v.bind("g", [i](uint64_t x) -> uint64_t { return x * 3 + (uint64_t)i; }), "bind");
}
// The channel calls the callers.
void callCallers(Veigar& v, int callers, int life, bool strict) {
    for (int i = 0; i < callers; i++) {
        CallResult cr = v.syncCall(chC(i), strict ? 30000 : 300, "g", (uint64_t)life);
        uint64_t got = 0;
        if (!strict) continue;
        VP_CHECK(cr.isSuccess(), "life %d of the channel cannot call its peer %d: %s", life, i, describe(cr).c_str());
        VP_CHECK(cr.convertObject(got) && got == (uint64_t)life * 3 + (uint64_t)i, "life %d got %llu from its peer %d", life, (unsigned long long)got, i);
    }
}
void startX(Veigar& v, const Op& o, int life, const Case& c) {
    v.setTimeoutOfRWLock((uint32_t)c.get("lock"));
    bindX(v, life);
    bool ok = v.init(chX(), (uint32_t)o.at(3), (uint32_t)o.at(4));
    VP_CHECK(ok, "life %d of the channel cannot be initialised after the former one was %s", life, life ? kMode[c.ops[(size_t)life - 1].at(0)] : "(none)");
}
void checkEmpty(int life) {
    raw::Queue a, b;
    VP_CHECK(a.open(chX() + "_call") && b.open(chX() + "_resp"), "life %d: the queues of the channel cannot be opened", life);
    int64_t na = a.number(), nb = b.number();
    VP_CHECK(na == 0 && nb == 0, "life %d starts with %lld calls and %lld answers in its queues", life, (long long)na, (long long)nb);
    a.close();
    b.close();
}
void lifeProc(const Case& c, int life) {
    const Op& o = c.ops[(size_t)life];
    const int mode = (int)o.at(0);
    const int callers = (int)c.get("callers");
    if (c.get("perturb")) vpw::perturb(caseSeed() + (uint64_t)life, (int)c.get("perturb"), 500);
    Veigar v;
    if (mode == INIT_STEP_KILL) vpw::killAtStep(o.at(1), o.at(2) != 0);
    startX(v, o, life, c);
    vpw::killAtStep(0, false);
    checkEmpty(life);
    S->up = life + 1;
    callCallers(v, callers, life, true);
    S->up = -(life + 1);  // its own calls work, the verification of the callers may be going on
    waitFor(60000, [&] { return S->kill.load() == life + 1; });
    raw::Queue q;
    switch (mode) {
        case CALL_LOCK_KILL:
        case RESP_LOCK_KILL:
            VP_CHECK(q.open(chX() + (mode == CALL_LOCK_KILL ? "_call" : "_resp")) && q.q->processRWLock(20000), "lock");
            if (o.at(2)) S->armed = life + 1, sleepUs(20000);
            kill(getpid(), SIGKILL);
            break;
        case TRAFFIC_STEP_KILL:
        case TRAFFIC_TIME_KILL: {
            if (mode == TRAFFIC_STEP_KILL) vpw::killAtStep(o.at(1), o.at(2) != 0);
            S->armed = life + 1;
            std::thread t;
            if (mode == TRAFFIC_TIME_KILL) t = std::thread([&] { sleepUs(o.at(1)); kill(getpid(), SIGKILL); });
            int64_t end = nowUs() + 3000000;
            while (nowUs() < end) callCallers(v, callers, life, false);
            kill(getpid(), SIGKILL);
            break;
        }
        case EXIT: _exit(0);
        case ORDERLY: v.uninit(); _exit(0);
        case UNINIT_STEP_KILL:
            vpw::killAtStep(o.at(1), o.at(2) != 0);
            v.uninit();
            _exit(0);
        case INIT_STEP_KILL: v.uninit(); _exit(0);
        default:  // the callers' process does it
            for (;;) { kill(getpid(), SIGKILL); sleepUs(1000); }
    }
}
void manager(const Case& c) {
    int next = 0;
    for (;;) {
        waitFor(1000000000, [&] { return S->cmd.load() > next || S->gone.load(); }, 300);
        if (S->gone.load()) return;
        int life = S->cmd.load() - 1;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            lifeProc(c, life);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) fail(strf("life %d crashed with signal %d", life, WTERMSIG(st)));
        if (WIFEXITED(st) && WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        S->dead = life + 1;
        next = life + 1;
    }
}
struct Caller {
    std::unique_ptr<Veigar> v;
    int idx;
    void start(const Case& c) {
        v.reset(new Veigar());
        v->setTimeoutOfRWLock((uint32_t)c.get("lock"));
        bindC(*v, idx);
        VP_CHECK(v->init(chC(idx), 60, 400), "a caller cannot be initialised");
    }
};
int newTok(int life) {
    int t = S->tok++;
    if (t >= kMax) discard("too many calls");
    S->born[t] = life;
    return t;
}
void verifyCall(Veigar& a, const char* who, int life) {
    int tok = newTok(life);
    CallResult cr = a.syncCall(chX(), 30000, "f", (uint64_t)tok, payload((uint64_t)tok, tok % 100));
    VP_CHECK(cr.isSuccess(), "%s cannot call life %d of the channel: %s", who, life, describe(cr).c_str());
    Ans r;
    try { r = cr.obj.get().as<Ans>(); } catch (...) { fail("wrong answer type"); }
    VP_CHECK(std::get<0>(r) == (uint64_t)tok && std::get<1>(r) == life, "%s called life %d with %d and got the answer to %llu from life %lld", who, life, tok, (unsigned long long)std::get<0>(r), (long long)std::get<1>(r));
    VP_CHECK(S->exec[tok].load() == life + 1, "%s: the call was answered without being executed", who);
    auto p = a.asyncCall(chX(), 30000, "f", (uint64_t)newTok(life), std::string());
    VP_CHECK(p->second.wait_for(std::chrono::seconds(40)) == std::future_status::ready, "%s: a promise call to life %d was never completed", who, life);
    CallResult cr2 = p->second.get();
    VP_CHECK(cr2.isSuccess(), "%s: a promise call to life %d failed: %s", who, life, describe(cr2).c_str());
    a.releaseCall(p->first);
}
// A caller goes while its calls are being executed, and a successor of the same name comes; x: the channel, if it is of this process.
void visits(Veigar* x, int life, const Case& c, Rng& r) {
    const int idx = 50;
    for (int64_t rounds = r.range(1, 2); rounds > 0; rounds--) {
        if (x && r.chance(1, 2)) {
            CallResult cr = x->syncCall(chC(idx), 300, "g", (uint64_t)1);
            VP_CHECK(!cr.isSuccess(), "a call to a channel nobody serves succeeded");
        }
        const bool calls = r.chance(3, 4);
        const int64_t before = r.below(30000), us = r.chance(1, 2) ? r.below(20000) : r.range(40000, 160000), after = r.chance(1, 2) ? r.below(5000) : r.range(20000, 200000);
        {
            Caller v;
            v.idx = idx;
            v.start(c);
            if (x && r.chance(1, 2)) {
                uint64_t got = 0;
                CallResult cr = x->syncCall(chC(idx), 30000, "g", (uint64_t)life);
                VP_CHECK(cr.isSuccess() && cr.convertObject(got) && got == (uint64_t)life * 3 + (uint64_t)idx, "life %d cannot call a visitor: %s", life, describe(cr).c_str());
            }
            if (r.chance(1, 4)) verifyCall(*v.v, "a visitor", life);
            if (calls) for (int64_t k = r.range(1, 4); k > 0; k--) v.v->asyncCall(chX(), 20000, "nap", us);
            sleepUs(before);
            v.v->uninit();
        }
        sleepUs(after);
        Caller w;
        w.idx = idx;
        w.start(c);
        verifyCall(*w.v, "the successor of a caller that left during its calls", life);
        if (x) {
            uint64_t got = 0;
            CallResult cr = x->syncCall(chC(idx), 30000, "g", (uint64_t)life);
            VP_CHECK(cr.isSuccess() && cr.convertObject(got) && got == (uint64_t)life * 3 + (uint64_t)idx, "life %d cannot call the successor of a peer: %s", life, describe(cr).c_str());
        }
        w.v->uninit();
        metric("successors of callers that left during their calls", calls);
    }
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int callers = (int)c.get("callers"), lives = (int)c.ops.size();
    Proc mgr = Proc::start([&] { manager(c); });
    std::vector<Caller> cs((size_t)callers);
    for (int i = 0; i < callers; i++) {
        cs[(size_t)i].idx = i;
        cs[(size_t)i].start(c);
    }
    int abnormal = 0, revived = 0, wedged = 0;
    bool calledBefore = false;
    Rng vr(caseSeed() ^ 0x5157);
    std::vector<std::string> pendingIds[8];
    for (int life = 0; life < lives; life++) {
        const Op& o = c.ops[(size_t)life];
        const int mode = (int)o.at(0);
        const std::string ph = strf("life %d (to be %s)", life, kMode[mode]);
        phase(ph + ", start");
        if (mode == INPROC) {
            Veigar x;
            startX(x, o, life, c);
            checkEmpty(life);
            phase(ph + ", verification");
            callCallers(x, callers, life, true);
            for (auto& k : cs) verifyCall(*k.v, "an old caller", life);
            if (calledBefore) revived++;
            calledBefore = true;
            phase(ph + ", visits");
            visits(&x, life, c, vr);
            x.uninit();
            continue;
        }
        S->cmd = life + 1;
        bool up = waitFor(60000, [&] { return S->up.load() == -(life + 1) || S->dead.load() == life + 1; });
        if (!up) fail(strf("life %d of the channel neither became ready nor died", life));
        if (S->dead.load() != life + 1) {
            phase(ph + ", verification");
            for (auto& k : cs) verifyCall(*k.v, "an old caller", life);
            if (calledBefore && abnormal) revived++;
            calledBefore = true;
            Caller fresh;
            fresh.idx = callers + life;
            fresh.start(c);
            verifyCall(*fresh.v, "a new caller", life);
            fresh.v->uninit();
            phase(ph + ", visits");
            if (vr.chance(1, 2)) visits(nullptr, life, c, vr);

            phase(ph + ", end");
            raw::Queue q, rq;
            if (!q.open(chX() + "_call") || !rq.open(chX() + "_resp")) fail("the queues cannot be opened");
            if (mode == QUEUED_KILL) {
                S->holding = 0;
                S->hold = 1;
                int k = (int)std::min<int64_t>(o.at(5), 3 + o.at(3));
                for (int i = 0; i < k; i++) {
                    auto p = cs[(size_t)(i % callers)].v->asyncCall(chX(), 20000, "hold", (uint64_t)newTok(life));
                    pendingIds[(i % callers)].push_back(p->first);
                }
                if (!waitFor(20000, [&] { return S->holding.load() + (int)q.number() >= k; })) fail("calls were not delivered");
                // complete messages of nobody in the queues
                for (int64_t i = 0; i < o.at(6) && k >= 3; i++) {  // (all its threads are busy)
                    q.tryPush(mref::encode(raw::callNode("id" + std::to_string(i), chC(0), "f", {mref::Node::integer(newTok(life)), mref::Node::str("")})));
                    rq.tryPush(mref::encode(raw::answerNode("nobody" + std::to_string(i), mref::Node::nil(), mref::Node::integer(1))));
                }
            }
            // whatever the channel sent so far is completely sent: it holds nobody's lock any more
            for (int i = 0; i < callers; i++) {
                raw::Queue b;
                if (!b.open(chC(i) + "_resp") || b.number() < 0) fail("the answer queue of a caller cannot be used");
                b.close();
                if (!b.open(chC(i) + "_call") || b.number() < 0) fail("the call queue of a caller cannot be used");
                b.close();
            }
            S->kill = life + 1;
            if (mode == TRAFFIC_STEP_KILL || mode == TRAFFIC_TIME_KILL || (o.at(2) && (mode == CALL_LOCK_KILL || mode == RESP_LOCK_KILL))) {
                waitFor(5000, [&] { return S->armed.load() == life + 1 || S->dead.load() == life + 1; }, 50);
                int rounds = 0;
                while (S->dead.load() != life + 1 && ++rounds < 60)
                    for (auto& k : cs) {
                        int tok = newTok(life);
                        if (rounds % 3 == 2) {
                            auto p = k.v->asyncCall(chX(), 200, "f", (uint64_t)tok, std::string("traffic"));
                            pendingIds[&k - &cs[0]].push_back(p->first);
                        } else k.v->syncCall(chX(), 200, "f", (uint64_t)tok, std::string("traffic"));
                    }
            }
            if (!waitFor(30000, [&] { return S->dead.load() == life + 1; })) fail(strf("life %d did not end (%s)", life, kMode[mode]));
            S->hold = 0;
            q.close();
            rq.close();
            // what the callers still have to send must not reach the next life: it was sent to this one
            phase(ph + ", afterwards");
            for (int i = 0; i < callers; i++) {
                // a caller whose own queue was locked by the dead process is stuck until it restarts (see C13)
                raw::Queue a, b;
                bool ok = a.open(chC(i) + "_call") && b.open(chC(i) + "_resp");
                if (!ok) fail("the queues of a caller have gone");
                bool free = true;
                for (raw::Queue* z : {&a, &b}) {
                    if (z->q->processRWLock(2500)) z->q->processRWUnlock();
                    else free = false;
                }
                a.close();
                b.close();
                for (auto& id : pendingIds[i]) cs[(size_t)i].v->releaseCall(id);
                pendingIds[i].clear();
                if (i == 0 && (mode == TRAFFIC_STEP_KILL || mode == TRAFFIC_TIME_KILL || mode == CALL_LOCK_KILL || mode == RESP_LOCK_KILL)) sleepUs(c.get("lock") * 1000 + 250000);
                if (!free) {
                    if (mode != TRAFFIC_STEP_KILL && mode != TRAFFIC_TIME_KILL && mode != UNINIT_STEP_KILL && !(o.at(2) && (mode == CALL_LOCK_KILL || mode == RESP_LOCK_KILL))) fail(strf("the queue lock of a caller is held after the channel was %s", kMode[mode]));
                    wedged++;
                    cs[(size_t)i].v->uninit();
                    cs[(size_t)i].start(c);
                }
            }
        } else if (mode != INIT_STEP_KILL) fail(strf("life %d died on its own", life));
        if (mode != ORDERLY) abnormal++;
        label(kMode[mode]);
    }
    phase("last life");
    {
        Veigar x;
        x.setTimeoutOfRWLock((uint32_t)c.get("lock"));
        bindX(x, lives);
        VP_CHECK(x.init(chX(), 50, 400), "the last life cannot be initialised after the former one was %s", kMode[c.ops.back().at(0)]);
        checkEmpty(lives);
        for (auto& k : cs) verifyCall(*k.v, "an old caller", lives);
        if (calledBefore && abnormal) revived++;
        callCallers(x, callers, lives, true);
        phase("last life, visits");
        if (vr.chance(1, 3)) visits(&x, lives, c, vr);
        sleepUs(2000);
        x.uninit();
    }
    S->gone = 1;
    int st = mgr.wait(20000);
    if (st != 0) fail(strf("the manager of the lives ended with %d", st));
    for (auto& k : cs) k.v->uninit();
    auto left = shmNames(prefix());
    if (!left.empty()) fail("a name is left after everybody is gone: " + left[0]);
    metric("lives ended without uninit", abnormal);
    metric("calls by an old caller to a later life", revived);
    metric("callers stuck by their lock (C13)", wedged);
    if (abnormal && revived) nontrivial();
}
