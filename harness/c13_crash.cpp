// C13: a crashing peer does not take the others down.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;

enum Mode { STEP, TIME, INIT_STEP, UNINIT_STEP, IN_FUNCTION, IDLE, OWN_LOCK, MODES };
static const char* kMode[] = {"at a step of its traffic", "at a moment of its traffic", "at a step of its init", "at a step of its uninit", "inside a function", "idle", "holding its own queue lock"};

void vpInfo(Info& i) {
    i.id = "C13";
    i.watchdogMs = 90000;
    i.rule = "A case is 1..3 surviving instances and 1..2 peer processes in the roles caller, target or both that are SIGKILLed right before or after the n-th synchronisation or resource step of their init, traffic or uninit, at a random "
             "moment, inside a function, idle, or holding their own queue lock, while survivors call them (synchronously, with a promise or a callback; from threads and from inside functions) and each other, or while a survivor is "
             "being uninitialised. Then the survivors call each other and the dead, shut down and start again. A witness in shared memory tells which queue locks the dead held. "
             "Non-trivial: a peer was killed in the middle of something and survivors called it before and after.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["surv"] = r.range(1, 3);
    c.cfg["lock"] = r.pick(std::vector<int64_t>{60, 100, 200});
    c.cfg["perturb"] = r.chance(1, 3) ? r.range(5, 100) : 0;
    c.cfg["cap"] = r.pick(std::vector<int64_t>{40, 80});
    c.cfg["pcap"] = r.pick(std::vector<int64_t>{2, 5, 40});
    c.cfg["nested"] = r.below(2);
    c.cfg["survuninit"] = r.chance(1, 5);
    c.cfg["seed"] = r.range(1, 1 << 30);
    int64_t n = r.chance(1, 4) ? 2 : 1;
    for (int64_t i = 0; i < n; i++) {
        int64_t m = r.weighted({9, 4, 3, 4, 3, 1, 2});
        int64_t step = m == INIT_STEP ? r.range(1, 34) : m == UNINIT_STEP ? r.range(1, 60) : m == TIME ? r.range(0, 12000) : r.chance(1, 2) ? r.range(1, 60) : r.range(1, thorough ? 3000 : 900);
        // mode, step or microseconds, after, role (1 caller, 2 target, 3 both), threads
        c.ops.push_back(Op("peer", {m, step, r.below(2), r.range(1, 3), r.range(1, 3)}));
    }
    int64_t k = r.range(4, 40);
    // what the threads of the survivors do: survivor, kind, target
    for (int64_t i = 0; i < k; i++) c.ops.push_back(Op("do", {r.below(3), r.weighted({4, 2, 2, 3, 2}), r.below(4), r.range(0, 120)}));
    return c;
}
bool vpValid(const Case& c) {
    int peers = 0;
    for (auto& o : c.ops) {
        if (o.k == "peer") { peers++; if (o.at(0) < 0 || o.at(0) >= MODES || o.at(3) < 1 || o.at(3) > 3 || o.at(4) < 1) return false; }
    }
    return peers >= 1 && peers <= 2 && c.get("surv") >= 1 && c.get("lock") >= 50 && c.get("cap") >= 20 && c.get("pcap") >= 1;
}

namespace {
const int kMax = 16384, kRows = 64;
struct Sh {
    std::atomic<int> go, traffic, tok, up[2], inFn[2], armed[2], cbOpen, pcalls[2];
    std::atomic<int> exec[kMax];
    char held[2][kRows][vpw::kLockName];
};
Sh* S;
typedef std::tuple<uint64_t, std::string> Ans;
std::string chS(int i) { return prefix() + "s" + std::to_string(i); }
std::string chP(int i) { return prefix() + "p" + std::to_string(i); }

void peer(const Case& c, int k, const Op& o) {
    const int mode = (int)o.at(0), role = (int)o.at(3), surv = (int)c.get("surv");
    vpw::traceLocks(&S->held[k][0][0], kRows);
    if (c.get("perturb")) vpw::perturb((uint64_t)c.get("seed") + 100 + (uint64_t)k, (int)c.get("perturb"), 400);
    Veigar v;
    v.setTimeoutOfRWLock((uint32_t)c.get("lock"));
    v.bind("f", [k](uint64_t tok, std::string s) -> Ans {
        if (tok < (uint64_t)kMax) S->exec[tok]++;
        S->inFn[k]++;
        return Ans(tok, s);
    });
    v.bind("back", [&, k](uint64_t tok, std::string s) -> Ans {   // calls a survivor
        if (tok < (uint64_t)kMax) S->exec[tok]++;
        S->inFn[k]++;
        v.syncCall(chS((int)(tok % (uint64_t)surv)), 300, "g", (uint64_t)kMax, s);
        return Ans(tok, s);
    });
    v.bind("hold", [k](uint64_t tok, std::string s) -> Ans {
        if (tok < (uint64_t)kMax) S->exec[tok]++;
        S->inFn[k]++;
        sleepUs(20000);
        return Ans(tok, s);
    });
    waitFor(60000, [] { return S->go.load(); });
    if (mode == INIT_STEP) vpw::killAtStep(o.at(1), o.at(2) != 0);
    if (!v.init(chP(k), (uint32_t)c.get("pcap"), 600)) fail("a peer cannot be initialised");
    vpw::killAtStep(0, false);
    S->up[k] = 1;
    waitFor(60000, [] { return S->traffic.load(); }, 50);
    std::vector<std::thread> th;
    if (mode == STEP) vpw::killAtStep(o.at(1), o.at(2) != 0);
    if (mode == TIME) th.emplace_back([&] { sleepUs(o.at(1)); kill(getpid(), SIGKILL); });
    S->armed[k] = 1;
    std::atomic<int> stop{0};
    if (role & 1) for (int t = 0; t < (int)o.at(4); t++) th.emplace_back([&, t] {
        Rng r((uint64_t)c.get("seed") * 7 + (uint64_t)(k * 10 + t));
        std::vector<std::shared_ptr<AsyncCallResult>> ps;
        while (!stop) {
            std::string to = chS((int)r.below(surv));
            std::string s = payload((uint64_t)t, r.range(0, 150));
            const char* fn = c.get("nested") && r.chance(1, 4) ? "callpeer" : "g";
            S->pcalls[k]++;
            switch (r.below(3)) {
                case 0: {
                    CallResult cr = v.syncCall(to, 500, fn, (uint64_t)kMax, s);
                    if (cr.isSuccess()) {
                        Ans a;
                        try { a = cr.obj.get().as<Ans>(); } catch (...) { fail("a peer got an answer of a wrong type"); }
                        if (std::get<1>(a) != s) fail("a peer got a wrong answer");
                    }
                    break;
                }
                case 1:
                    if (ps.size() < 8) ps.push_back(v.asyncCall(to, 500, fn, (uint64_t)kMax, s));
                    else { v.releaseCall(ps[0]->first); ps.erase(ps.begin()); }
                    break;
                default: v.asyncCall([](const CallResult&) {}, to, 500, fn, (uint64_t)kMax, s); break;
            }
            sleepUs(r.range(0, 300));
        }
    });
    if (mode == IN_FUNCTION) {
        waitFor(3000, [&] { return S->inFn[k].load() > 0; }, 50);
        kill(getpid(), SIGKILL);
    }
    if (mode == OWN_LOCK) {
        raw::Queue q;
        if (q.open(chP(k) + (o.at(2) ? "_call" : "_resp"))) q.q->processRWLock(20000);
        sleepUs(o.at(1) * 20);
        kill(getpid(), SIGKILL);
    }
    if (mode == UNINIT_STEP) {
        sleepUs(o.at(1) * 100);
        vpw::killAtStep(o.at(1), o.at(2) != 0);
        v.uninit();
        stop = 1;
        for (auto& t : th) t.join();
        _exit(0);
    }
    if (mode == IDLE) {
        stop = 1;
        for (auto& t : th) t.join();
        sleepUs(10000);
        // nothing of its own is on the way any more
        S->armed[k] = 2;
        for (;;) sleepUs(1000000);
    }
    sleepUs(1500000);
    kill(getpid(), SIGKILL);
    for (;;) sleepUs(1000);
}
struct Failure { int from, to; std::string what; };
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int surv = (int)c.get("surv");
    const int64_t lock = c.get("lock");
    std::vector<const Op*> peers;
    std::vector<const Op*> todo[3];
    for (auto& o : c.ops) {
        if (o.k == "peer") peers.push_back(&o);
        else todo[o.at(0) % surv].push_back(&o);
    }
    std::vector<Proc> procs;
    for (size_t k = 0; k < peers.size(); k++) procs.push_back(Proc::start([&, k] { peer(c, (int)k, *peers[k]); }));
    const int np = (int)peers.size();
    std::vector<int> dead((size_t)np, 0);
    auto reap = [&](int64_t ms) {
        waitFor(ms, [&] {
            bool all = true;
            for (int k = 0; k < np; k++) {
                if (dead[(size_t)k]) continue;
                int st = procs[(size_t)k].wait(0);
                if (st == -1000) all = false;
                else {
                    if (st != 0 && st != -SIGKILL) { if (st > 0) _exit(st); fail(strf("a peer crashed with signal %d", -st)); }
                    dead[(size_t)k] = 1;
                }
            }
            return all;
        }, 200);
    };
    phase("init of the survivors");
    if (c.get("perturb")) vpw::perturb((uint64_t)c.get("seed"), (int)c.get("perturb"), 300);
    std::vector<std::unique_ptr<Veigar>> v;
    auto start = [&](int i) {
        Veigar* a = v[(size_t)i].get();
        a->setTimeoutOfRWLock((uint32_t)lock);
        VP_CHECK(a->bind("g", [](uint64_t tok, std::string s) { return Ans(tok, s); }), "bind");
        VP_CHECK(a->bind("callpeer", [=](uint64_t tok, std::string s) {
            a->syncCall(chP((int)(s.size() % (size_t)np)), 100, "f", (uint64_t)kMax, s);
            return Ans(tok, s);
        }), "bind");
        VP_CHECK(a->init(chS(i), (uint32_t)c.get("cap"), 600), "a survivor cannot be initialised");
    };
    for (int i = 0; i < surv; i++) {
        v.emplace_back(new Veigar());
        start(i);
    }
    S->go = 1;
    phase("start of the peers");
    waitFor(60000, [&] {
        reap(0);
        for (int k = 0; k < np; k++) if (!dead[(size_t)k] && !S->up[k]) return false;
        return true;
    });
    for (int k = 0; k < np; k++) if (!dead[(size_t)k] && !S->up[k]) fail("a peer did not start");

    phase("traffic");
    S->traffic = 1;
    std::mutex mu;
    std::vector<Failure> failures;   // of calls between survivors
    std::atomic<int> toPeers{0}, stop{0};
    std::atomic<int> uninited{-1};
    auto checkAnswer = [&](const CallResult& r, uint64_t tok, const std::string& s, bool executed) {
        Ans a;
        try { a = r.obj.get().as<Ans>(); } catch (...) { fail("an answer has the wrong type"); }
        if (std::get<0>(a) != tok || std::get<1>(a) != s) fail(strf("call %llu got another call's answer", (unsigned long long)tok));
        if (executed && S->exec[tok].load() < 1) fail(strf("call %llu to a peer succeeded without having been executed", (unsigned long long)tok));
        if (executed && S->exec[tok].load() > 1) fail(strf("call %llu to a peer was executed %d times", (unsigned long long)tok, S->exec[tok].load()));
    };
    auto survCall = [&](int i, int j, int64_t len) {
        std::string s = payload((uint64_t)i, len);
        CallResult r = v[(size_t)i]->syncCall(chS(j), 8000, "g", (uint64_t)len, s);
        if (r.isSuccess()) { checkAnswer(r, (uint64_t)len, s, false); return; }
        std::lock_guard<std::mutex> lg(mu);
        failures.push_back({i, j, describe(r)});
    };
    // synchronous call to a peer; it may fail, but must return in time
    auto peerSync = [&](int i, int k, const char* fn, int64_t T, int64_t len, bool isDead) {
        int tok = S->tok++;
        if (tok >= kMax) return;
        std::string s = payload((uint64_t)tok, len);
        int64_t t0 = nowUs();
        CallResult r = v[(size_t)i]->syncCall(chP(k), (uint32_t)T, fn, (uint64_t)tok, s);
        int64_t el = (nowUs() - t0) / 1000;
        if (el > T + 1500) failTiming(strf("a synchronous call to a %s peer with a timeout of %lld ms took %lld ms", isDead ? "dead" : "dying", (long long)T, (long long)el));
        if (r.isSuccess()) {
            if (isDead) fail("a call to a dead peer succeeded");
            checkAnswer(r, (uint64_t)tok, s, true);
        } else if (r.errorMessage.empty()) fail("a failed call has no explanation");
        toPeers++;
    };
    std::vector<std::vector<std::pair<Veigar*, std::string>>> pending((size_t)surv);
    std::vector<std::thread> th;
    for (int i = 0; i < surv; i++) th.emplace_back([&, i] {
        Veigar& a = *v[(size_t)i];
        for (int round = 0; round < 400 && !stop.load(); round++)
            for (auto* o : todo[i]) {
                if (stop.load()) break;
                const int k = (int)(o->at(2) % np);
                if (uninited.load() == i) break;
                switch (o->at(1)) {
                    case 0: peerSync(i, k, c.get("nested") && o->at(3) % 3 == 0 ? "back" : "f", 200 + o->at(3), o->at(3), false); break;
                    case 1: {
                        int tok = S->tok++;
                        if (tok >= kMax) break;
                        pending[(size_t)i].push_back({&a, a.asyncCall(chP(k), 300, "f", (uint64_t)tok, std::string((size_t)o->at(3), 'p'))->first});
                        if (pending[(size_t)i].size() > 8) { a.releaseCall(pending[(size_t)i][0].second); pending[(size_t)i].erase(pending[(size_t)i].begin()); }
                        toPeers++;
                        break;
                    }
                    case 2: {
                        int tok = S->tok++;
                        if (tok >= kMax || S->cbOpen.load() > 10) break;
                        S->cbOpen++;
                        auto n = std::make_shared<std::atomic<int>>(0);
                        std::string s((size_t)o->at(3), 'c');
                        a.asyncCall([&, n, tok, s](const CallResult& r) {
                            if (n->fetch_add(1)) fail("a callback ran twice");
                            if (r.isSuccess()) checkAnswer(r, (uint64_t)tok, s, true);
                            S->cbOpen--;
                        }, chP(k), 300, "f", (uint64_t)tok, s);
                        toPeers++;
                        break;
                    }
                    case 3: {
                        int j = (int)(o->at(2) % surv);
                        if (c.get("survuninit") && (j == 0 || i == 0)) break;
                        survCall(i, j, o->at(3));
                        break;
                    }
                    default: peerSync(i, k, "hold", 150, o->at(3), false); break;
                }
                sleepUs(50);
            }
    });
    std::thread un;
    if (c.get("survuninit")) un = std::thread([&] {
        waitFor(1500, [&] { for (int k = 0; k < np; k++) if (S->armed[k].load()) return true; return false; }, 50);
        sleepUs((int64_t)(c.get("seed") % 3000));
        uninited = 0;
        int64_t t0 = nowUs();
        v[0]->uninit();
        int64_t el = (nowUs() - t0) / 1000;
        if (el > 10000) failTiming(strf("uninit of a survivor took %lld ms", (long long)el));
    });
    reap(1);
    for (int k = 0; k < np; k++) {
        if (dead[(size_t)k] || peers[(size_t)k]->at(0) != IDLE) continue;
        waitFor(10000, [&] { return S->armed[k].load() == 2; });
        kill(procs[(size_t)k].pid, SIGKILL);
    }
    reap(10000);
    for (int k = 0; k < np; k++) if (!dead[(size_t)k]) fail("a peer did not die");
    phase("traffic after the death");
    sleepUs(30000);
    stop = 1;
    for (auto& t : th) t.join();
    if (un.joinable()) un.join();
    phase("afterwards");
    vpw::perturbOff();
    if (uninited.load() == 0) start(0);
    // which of the survivors' queues are unusable, and does the witness explain it?
    std::vector<int> wedged((size_t)surv, 0);
    std::string wedgedName;
    for (int i = 0; i < surv; i++)
        for (int q = 0; q < 2; q++) {
            raw::Queue z;
            std::string n = chS(i) + (q ? "_resp" : "_call");
            if (!z.open(n)) fail("a queue of a survivor has gone");
            if (z.q->processRWLock(3000)) { z.q->processRWUnlock(); z.close(); continue; }
            z.close();
            bool explained = false;
            for (int k = 0; k < np; k++) for (int t = 0; t < kRows; t++) if (n + "_rwlock" == S->held[k][t]) explained = true;
            if (!explained) fail("the lock of " + n.substr(prefix().size()) + " is not available although no dead process held it");
            wedged[(size_t)i] |= 1 << q;
            wedgedName = n.substr(prefix().size());
        }
    auto blocked = [&](int i, int j) { return (wedged[(size_t)j] & 1) || (wedged[(size_t)i] & 2); };
    for (auto& f : failures) if (!blocked(f.from, f.to)) fail(strf("a call between survivors %d and %d failed: %s", f.from, f.to, f.what.c_str()));
    failures.clear();
    int between = 0;
    for (int i = 0; i < surv; i++)
        for (int j = 0; j < surv; j++) {
            if (blocked(i, j)) {
                // even now a call must return
                int64_t t0 = nowUs();
                CallResult r = v[(size_t)i]->syncCall(chS(j), 500, "g", (uint64_t)1, std::string("x"));
                if ((nowUs() - t0) / 1000 > 2000) failTiming("a call over a queue whose lock is held took too long");
                if (!r.isSuccess() && r.errorMessage.empty()) fail("a failed call has no explanation");
                continue;
            }
            between++;
            for (int n = 0; n < 4; n++) survCall(i, j, n * 30);
        }
    if (!failures.empty()) fail(strf("after the death a call between survivors %d and %d failed: %s", failures[0].from, failures[0].to, failures[0].what.c_str()));
    phase("calls to the dead");
    for (int i = 0; i < surv; i++) for (int k = 0; k < np; k++) peerSync(i, k, "f", 120, 10, true);
    for (int i = 0; i < surv; i++) for (auto& p : pending[(size_t)i]) p.first->releaseCall(p.second);
    phase("shut down");
    {
        int64_t t0 = nowUs();
        for (auto& x : v) x->uninit();
        int64_t el = (nowUs() - t0) / 1000;
        if (el > 6000 * surv) failTiming(strf("the shut down of the survivors took %lld ms", (long long)el));
    }
    if (S->cbOpen.load() != 0) fail(strf("%d callbacks never ran although the survivors are uninitialised", S->cbOpen.load()));
    for (int i = 0; i < surv; i++) if (!shmNames(chS(i)).empty()) fail("a name of a survivor is left after its uninit");
    phase("second life");
    for (int i = 0; i < surv; i++) start(i);
    for (int i = 0; i < surv; i++) for (int j = 0; j < surv; j++) survCall(i, j, 50);
    if (!failures.empty()) fail(strf("after a restart a call between survivors %d and %d failed: %s", failures[0].from, failures[0].to, failures[0].what.c_str()));
    for (auto& x : v) x->uninit();
    metric("calls to peers", toPeers);
    metric("pairs of survivors that went on", between);
    bool inTheMiddle = false;
    for (auto* p : peers) { label(strf("killed %s", kMode[p->at(0)])); if (p->at(0) != IDLE) inTheMiddle = true; }
    if (c.get("survuninit")) label("survivor uninitialised meanwhile");
    if (inTheMiddle && toPeers.load() >= 3) nontrivial();
    if (!wedgedName.empty()) failSig("killed-holding-survivors-queue-lock", "a peer was killed between taking and releasing the lock of " + wedgedName + ": no call reaches this queue until its owner restarts");
}
