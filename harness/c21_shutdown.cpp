// C21: uninitialising with work in flight.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
#include <dirent.h>
#include <deque>
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C21";
    i.watchdogMs = 60000;
    i.rule = "A case is 1..3 lives of an instance on which 1..5 threads issue generated calls of every style to itself, to a served peer in another process, to a peer that never answers, to a full queue, to nobody and to a restarting peer, "
             "while the other process and raw peers call its functions (fast, slow, nested calls) and callbacks run, and which is uninitialised at a generated moment (after a time, after so many calls, functions or completions; by one or two threads; "
             "with perturbed schedules). Every call is registered with its completions. Non-trivial: at least 3 calls were outstanding or functions running when uninitialise was called.";
}
enum Style { SYNC, PROMISE, CALLBACK };
enum Target { SELF, PEER, MUTE, FULLT, NOBODY, RESTARTING, TARGETS };
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["cap"] = r.pick(std::vector<int64_t>{2, 5, 30, 200});
    c.cfg["lives"] = r.range(1, 3);
    c.cfg["threads"] = r.range(1, 5);
    c.cfg["perturb"] = r.chance(1, 2) ? r.range(20, 300) : 0;
    c.cfg["far"] = r.range(0, 3);        // callers in the other process
    c.cfg["flood"] = r.chance(1, 3) ? r.range(5, 60) : 0;   // raw calls in its queue
    c.cfg["rest"] = r.chance(1, 4);      // the threads stop before
    for (int64_t l = 0; l < c.get("lives"); l++) {
        int64_t kind = r.below(5);
        c.ops.push_back(Op("moment", {kind, kind == 0 ? r.small(40000) : kind == 1 ? r.range(1, 100) : kind == 2 ? r.range(1, 30) : kind == 3 ? r.range(1, 30) : 0, r.range(1, 2), r.below(2)}));
    }
    int64_t n = r.range(3, thorough ? 40 : 25);
    for (int64_t i = 0; i < n; i++) {
        // thread, style, target, function, duration of function (us), duration of callback, pause after
        c.ops.push_back(Op("call", {r.below(c.get("threads")), r.below(3), r.pick(std::vector<int64_t>{SELF, SELF, SELF, PEER, PEER, PEER, MUTE, MUTE, FULLT, FULLT, NOBODY, RESTARTING}), r.weighted({4, 3, 2, 1, 1}), r.chance(1, 2) ? 0 : r.small(30000),
                                    r.chance(2, 3) ? 0 : r.small(15000), r.chance(1, 2) ? 0 : r.small(3000)}));
    }
    return c;
}
bool vpValid(const Case& c) {
    int64_t m = 0;
    for (auto& o : c.ops) {
        if (o.k == "moment") m++;
        if (o.k == "call" && (o.at(0) < 0 || o.at(1) < 0 || o.at(1) > 2 || o.at(2) < 0 || o.at(2) >= TARGETS || o.at(3) < 0 || o.at(3) > 4)) return false;
    }
    return c.get("cap") >= 1 && c.get("threads") >= 1 && c.get("lives") >= 1 && m >= c.get("lives");
}

namespace {
struct Sh {
    std::atomic<int> up, stop, pause, paused, farOk, farBad;
};
Sh* S;
std::string chan(const char* s) { return prefix() + s; }
struct Rec {
    Style style;
    Target target;
    int64_t cbUs = 0;
    std::atomic<int> completions{0}, started{0};
    std::atomic<bool> issued{false}, before{false};   // the issuing call returned; it did so before uninitialise returned
    std::shared_ptr<AsyncCallResult> p;
};
struct World {
    std::atomic<int> uninitBegun{0}, uninitDone{0};
    std::atomic<int64_t> issued{0}, executed{0}, completed{0}, cbDuring{0};
    std::atomic<int> running{0}, inCallback{0};
};
thread_local Rec* t_issuing = nullptr;
int threadCount() {
    DIR* d = opendir("/proc/self/task");
    int n = 0;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int nt = (int)c.get("threads");
    const int64_t cap = c.get("cap");
    Proc other = Proc::start([&] {
        Veigar b, r;
        b.setTimeoutOfRWLock(20000);
        auto bindB = [](Veigar& v) {
            v.bind("f", [](int x, int us) { if (us) sleepUs(us); return x + 1; });
        };
        bindB(b);
        VP_CHECK(b.init(chan("b"), 200, 1000), "init of the peer failed");
        r.setTimeoutOfRWLock(20000);
        bindB(r);
        VP_CHECK(r.init(chan("r"), 200, 1000), "init of the restarting peer failed");
        std::vector<std::thread> th;
        for (int t = 0; t < (int)c.get("far"); t++) th.emplace_back([&, t] {
            int n = 0;
            while (!S->stop.load()) {
                const int x = ++n * 10 + t;
                CallResult cr = b.syncCall(chan("a"), 300, "f", x, n % 5 == 0 ? 4000 : 0);
                if (cr.isSuccess()) {
                    if (cr.obj.get().as<int>() != x + 1) fail("the peer got a wrong result");
                    S->farOk++;
                } else {
                    S->farBad++;
                    if (cr.errorMessage.empty()) fail("the peer's failed call has no explanation");
                    sleepUs(500);
                }
            }
        });
        S->up = 1;
        while (!S->stop.load()) {
            sleepUs(3000);
            r.uninit();
            bindB(r);
            VP_CHECK(r.init(chan("r"), 200, 1000), "restart failed");
        }
        for (auto& t : th) t.join();
        b.uninit();
        r.uninit();
    });
    if (!waitFor(40000, [] { return S->up.load() == 1; })) fail("the other process did not start");
    raw::Queue mute, muteResp, full, flood;
    if (!mute.create(chan("m") + "_call", 20000, 200) || !muteResp.create(chan("m") + "_resp", 10, 100) || !full.create(chan("q") + "_call", 1, 1000)) discard("raw queues");
    if (full.push("x", 1000) != raw::PUSHED) discard("the full queue");
    const int threads0 = threadCount();
    if (c.get("perturb")) vpw::perturb(caseSeed(), (int)c.get("perturb"), 1500);
    Veigar a;
    a.setTimeoutOfRWLock(20000);
    int lives = 0, outstandingTotal = 0;
    std::deque<std::shared_ptr<Rec>> old;   // of earlier lives
    for (auto& mo : c.ops) {
        if (mo.k != "moment" || lives >= (int)c.get("lives")) continue;
        lives++;
        auto W = std::make_shared<World>();
        const int64_t maxFn = 60000;
        VP_CHECK(a.bind("f", [W](int x, int us) {
            if (W->uninitDone.load()) fail("a function started after uninitialise had returned");
            W->running++;
            if (us) sleepUs(us);
            W->executed++;
            W->running--;
            return x + 1;
        }), "bind");
        VP_CHECK(a.bind("nest", [W, &a](std::string to, int us) {
            if (W->uninitDone.load()) fail("a function started after uninitialise had returned");
            W->running++;
            CallResult r = a.syncCall(to, 30000, "f", 1, us);
            W->executed++;
            W->running--;
            return r.isSuccess();
        }), "bind");
        VP_CHECK(a.bind("spawn", [W, &a](std::string to, int us) {   // a function that makes a call nobody waits for
            if (W->uninitDone.load()) fail("a function started after uninitialise had returned");
            W->running++;
            a.asyncCall([](const CallResult&) {}, to, 30000, "f", 1, us);
            W->executed++;
            W->running--;
            return true;
        }), "bind");
        VP_CHECK(a.bind("throws", [W](int us) -> int {
            if (W->uninitDone.load()) fail("a function started after uninitialise had returned");
            if (us) sleepUs(us);
            W->executed++;
            throw std::runtime_error("thrown");
        }), "bind");
        phase("init");
        VP_CHECK(a.init(chan("a"), (uint32_t)cap, 1000), "init of life %d failed", lives);
        const std::string names[TARGETS] = {chan("a"), chan("b"), chan("m"), chan("q"), chan("nobody"), chan("r")};
        std::mutex mu;
        std::deque<std::shared_ptr<Rec>> recs;
        std::atomic<int> stop{0}, syncIn{0}, nested{0};
        auto issue = [&](const Op& o) {
            auto rec = std::make_shared<Rec>();
            rec->style = (Style)o.at(1);
            rec->target = (Target)o.at(2);
            rec->cbUs = o.at(5);
            const std::string& to = names[rec->target];
            int fn = (int)o.at(3);
            const int us = (int)o.at(4);
            const uint32_t timeout = 30000;
            // nested calls occupy a dispatcher thread of the callee while they wait for another one: never more than one at a time
            if ((fn == 2 || fn == 3) && rec->target != SELF) fn = 1;
            if (fn == 2 && (rec->style != SYNC || nested.fetch_add(1) > 0)) { if (rec->style == SYNC) nested--; fn = 0; }
            { std::lock_guard<std::mutex> l(mu); recs.push_back(rec); }
            W->issued++;
            const std::string nestTo = names[o.at(4) % 3];
            auto done = [W, rec](const CallResult& r) {
                const bool inIssue = t_issuing == rec.get();
                if (W->uninitDone.load() && !inIssue) fail(strf("a callback of a call to target %d ran after uninitialise had returned (%s)", rec->target, describe(r).c_str()));
                rec->started++;
                W->inCallback++;
                if (!r.isSuccess() && r.errorMessage.empty()) fail("a failed call has no explanation");
                if (rec->cbUs) {
                    if (W->uninitBegun.load()) W->cbDuring += rec->cbUs + 300;
                    sleepUs(rec->cbUs);
                }
                W->inCallback--;
                if (rec->completions.fetch_add(1) > 0) fail(strf("a callback of a call to target %d ran twice", rec->target));
                W->completed++;
            };
            if (rec->style == SYNC) {
                syncIn++;
                CallResult r;
                if (fn == 2) r = a.syncCall(to, timeout, "nest", nestTo, us);
                else if (fn == 3) r = a.syncCall(to, timeout, "spawn", nestTo, us);
                else if (fn == 4) r = a.syncCall(to, timeout, "throws", us);
                else r = a.syncCall(to, timeout, "f", 5, fn == 0 ? 0 : us);
                if (fn == 2) nested--;
                if (r.isSuccess() && fn < 2 && r.obj.get().as<int>() != 6) fail("a wrong result");
                if (!r.isSuccess() && r.errorMessage.empty()) fail("a failed call has no explanation");
                rec->completions++;
                W->completed++;
                syncIn--;
            } else if (rec->style == PROMISE) {
                if (fn == 3) rec->p = a.asyncCall(to, timeout, "spawn", nestTo, us);
                else if (fn == 4) rec->p = a.asyncCall(to, timeout, "throws", us);
                else rec->p = a.asyncCall(to, timeout, "f", 5, fn == 0 ? 0 : us);
                if (!rec->p) fail("asyncCall returned nothing");
            } else {
                t_issuing = rec.get();
                if (fn == 3) a.asyncCall(done, to, timeout, "spawn", nestTo, us);
                else if (fn == 4) a.asyncCall(done, to, timeout, "throws", us);
                else a.asyncCall(done, to, timeout, "f", 5, fn == 0 ? 0 : us);
                t_issuing = nullptr;
            }
            if (!W->uninitDone.load()) rec->before = true;
            rec->issued = true;
        };
        if (c.get("flood")) {
            if (!flood.open(chan("a") + "_call")) fail("cannot open the queue of an initialised instance");
            for (int64_t i = 0; i < c.get("flood"); i++) flood.tryPush(mref::encode(raw::callNode("raw" + std::to_string(i), chan("m"), "f", {mref::Node::integer(1), mref::Node::integer(i % 3 ? 0 : 20000)})));
            flood.close();
        }
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
            bool any = false;
            for (int round = 0; round < 200 && !stop.load(); round++) {
                for (auto& o : c.ops) {
                    if (o.k != "call" || o.at(0) % nt != t) continue;
                    any = true;
                    if (stop.load()) break;
                    { std::lock_guard<std::mutex> l(mu); if (recs.size() > 400) stop = 1; }
                    issue(o);
                    if (o.at(6)) sleepUs(o.at(6));
                    if (W->uninitDone.load() && round > 0) { stop = 1; }
                }
                if (!any || c.get("rest")) break;
            }
        });
        phase("until the moment");
        const int64_t v = mo.at(1);
        switch (mo.at(0)) {
            case 0: sleepUs(v); break;
            case 1: waitFor(300, [&] { return W->issued.load() >= v; }, 20); break;
            case 2: waitFor(300, [&] { return W->executed.load() >= v; }, 20); break;
            case 3: waitFor(300, [&] { return W->completed.load() >= v; }, 20); break;
            default: waitFor(300, [&] { return W->running.load() > 0 || W->inCallback.load() > 0; }, 20); break;
        }
        if (mo.at(3)) stop = 1;   // the threads finish the call they make
        {
            std::lock_guard<std::mutex> l(mu);
            for (auto& r : recs) {
                bool done = r->completions.load() > 0 || (r->style == PROMISE && r->issued && r->p->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready);
                if (!done) outstandingTotal++;
            }
            outstandingTotal += W->running.load();
        }
        phase("uninit");
        W->uninitBegun = 1;
        const int64_t t0 = nowUs();
        std::thread second;
        if (mo.at(2) == 2) second = std::thread([&] {
            a.uninit();
            if (W->running.load()) fail("a second uninitialise returned while functions are running");
        });
        a.uninit();
        const int64_t took = nowUs() - t0;
        W->uninitDone = 1;
        if (W->running.load()) fail(strf("%d functions are still running after uninitialise", W->running.load()));
        if (a.isInit()) fail("still initialised");
        phase("after uninit");
        if (mo.at(2) == 2) second.join();
        // A synchronous call may be waiting for an answer with the full timeout unless it was failed.
        const int64_t t1 = nowUs();
        stop = 1;
        for (auto& t : th) t.join();
        const int64_t join = nowUs() - t1;
        int late = 0;
        for (auto& r : recs) {
            if (r->style == PROMISE) {
                if (r->p->second.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                    fail(strf("a promise call to target %d issued %s uninitialise returned was not completed by it", r->target, r->before ? "before" : "after"));
                CallResult cr;
                try {
                    cr = r->p->second.get();
                } catch (std::exception& e) {
                    fail(strf("the future of a call to target %d has no result but an exception: %s", r->target, e.what()));
                }
                if (!cr.isSuccess() && cr.errorMessage.empty()) fail("a failed call has no explanation");
            } else if (r->completions.load() != 1) {
                fail(strf("%d completions of a call of style %d to target %d issued %s uninitialise returned", r->completions.load(), r->style, r->target, r->before ? "before" : "after"));
            }
            if (!r->before) late++;
        }
        if (late) label("calls during and after uninitialise");
        for (auto& r : recs) old.push_back(r);
        if (took > maxFn + 600000 + W->cbDuring.load()) failTiming(strf("uninitialise took %lld ms", (long long)took / 1000));
        if (join > 700000) failTiming(strf("calls were still waiting %lld ms after uninitialise had returned", (long long)join / 1000));
        const int64_t completed = W->completed.load();
        sleepUs(2000);
        if (W->completed.load() != completed) fail("something was completed after uninitialise had returned");
        if (!waitFor(3000, [&] { return threadCount() == threads0; }, 300)) fail(strf("%d threads after uninitialise, %d before initialise", threadCount(), threads0));
    }
    phase("the last life");
    auto count = std::make_shared<std::atomic<int>>(0);
    VP_CHECK(a.bind("f", [count](int x, int) { (*count)++; return x + 1; }), "bind after uninitialise");
    VP_CHECK(a.init(chan("a"), 50, 1000), "init after uninitialise failed");
    for (const char* to : {"a", "b"}) {
        CallResult r = a.syncCall(chan(to), 20000, "f", 9, 0);
        if (!r.isSuccess() || r.obj.get().as<int>() != 10) fail("a call after uninitialise and initialise: " + describe(r));
        auto p = a.asyncCall(chan(to), 20000, "f", 9, 0);
        if (p->second.wait_for(std::chrono::seconds(30)) != std::future_status::ready) fail("a promise call after uninitialise and initialise was never completed");
        r = p->second.get();
        a.releaseCall(p->first);
        if (!r.isSuccess() || r.obj.get().as<int>() != 10) fail("a promise call after uninitialise and initialise: " + describe(r));
    }
    if (c.get("far")) {
        const int n = S->farOk.load();
        if (!waitFor(20000, [&] { return S->farOk.load() > n + 2; })) fail("the peer's calls do not succeed again after a restart of the instance");
    }
    for (auto& r : old) if (r->style == CALLBACK && r->completions.load() != 1) fail("a callback of an earlier life ran again");
    phase("the end");
    S->stop = 1;
    int st = other.wait(60000);
    if (st == -1000) fail("the other process does not end");
    if (st != 0) _exit(st < 0 ? 1 : st);
    vpw::perturbOff();
    a.uninit();
    metric("lives", lives);
    metric("calls", (int64_t)old.size());
    metric("outstanding at uninitialise", outstandingTotal);
    if (outstandingTotal >= 3) nontrivial();
}
