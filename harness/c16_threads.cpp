// C16: the public interface can be used from many threads at once.
#include "rpc.h"
#include "wrap.h"
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C16";
    i.watchdogMs = 90000;
    i.rule = "A case runs 2..8 threads with 5..60 operations each (calls of every style to bound, unbound and missing targets, binding, unbinding, listing, lock timeout, releasing, getters, initialising again) on 1..3 instances for 1..2 lives; "
             "functions and callbacks use the interface as well; in some cases a thread uninitialises in the middle. Built with ThreadSanitizer; a watchdog notices deadlocks. Non-trivial: at least 2 threads and 4 kinds of operations.";
}
static const char* kKinds[] = {"sync", "async", "cb", "bind", "unbind", "names", "setlock", "getlock", "release", "getters", "initagain", "nobody", "uninit"};
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["inst"] = r.range(1, 3);
    c.cfg["threads"] = r.range(2, 8);
    c.cfg["lives"] = r.range(1, 2);
    c.cfg["cap"] = r.pick(std::vector<int64_t>{3, 20, 100});
    c.cfg["perturb"] = r.chance(1, 2) ? r.range(5, 200) : 0;
    c.cfg["fnuses"] = r.below(4);   // functions use the interface
    c.cfg["uninit"] = r.chance(1, 2);
    int64_t n = r.range(10, thorough ? 400 : 200);
    for (int64_t i = 0; i < n; i++) {
        int64_t k = r.weighted({6, 6, 5, 3, 3, 2, 2, 1, 2, 1, 1, 1, 0});
        c.ops.push_back(Op(kKinds[k], {r.below(c.cfg["threads"]), r.below(3), r.below(3), r.below(4), r.below(50)}));   // thread, instance, target, name, misc
    }
    if (c.cfg["uninit"]) {
        int64_t m = r.range(1, 3);
        for (int64_t i = 0; i < m; i++) c.ops.insert(c.ops.begin() + r.range((int64_t)c.ops.size() / 2, (int64_t)c.ops.size()), Op("uninit", {r.below(c.cfg["threads"]), r.below(3)}));
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("inst") >= 1 && c.get("threads") >= 1 && c.get("cap") >= 1 && c.get("lives") >= 1; }

namespace {
const char* nameOf(int64_t n) { static const char* k[] = {"f", "g", "h", "never"}; return k[n % 4]; }
}

void vpRun(const Case& c) {
    const int ni = (int)c.get("inst"), nt = (int)c.get("threads");
    std::vector<std::unique_ptr<Veigar>> v;
    for (int i = 0; i < ni; i++) v.emplace_back(new Veigar());
    auto chan = [&](int64_t i) { return prefix() + "i" + std::to_string(i % ni); };
    std::atomic<int> calls{0}, answered{0}, cbDone{0}, cbMade{0};
    std::set<std::string> kinds;
    for (auto& o : c.ops) kinds.insert(o.k);
    const int uses = (int)c.get("fnuses");
    auto bindOne = [&](Veigar& a, int64_t nm) {
        Veigar* pa = &a;
        auto cap = std::make_shared<std::string>(std::string("captured ") + nameOf(nm));
        a.bind(nameOf(nm), [pa, cap, uses, nm](int x, std::string s) -> std::string {
            if (uses == 1) pa->unbind(nameOf(nm + 1));
            if (uses == 2) pa->setTimeoutOfRWLock(20000 + (uint32_t)(x & 7)), pa->bindNames();
            if (uses == 3) pa->bind(nameOf(nm + 1), [](int, std::string t) { return t; });
            return s + *cap;
        });
    };
    for (int life = 0; life < (int)c.get("lives"); life++) {
        phase("init");
        for (int i = 0; i < ni; i++) {
            v[(size_t)i]->setTimeoutOfRWLock(20000);
            VP_CHECK(v[(size_t)i]->init(chan(i), (uint32_t)c.get("cap"), 600), "init failed");
            bindOne(*v[(size_t)i], 0);
        }
        if (c.get("perturb")) vpw::perturb(caseSeed() + (uint64_t)life, (int)c.get("perturb"), 500);
        const bool un = c.get("uninit") && life + 1 == (int)c.get("lives");
        phase("load");
        std::vector<std::thread> th;
        std::atomic<int> go{0};
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
            ++go;
            while (go.load() < nt) sleepUs(20);
            std::vector<std::shared_ptr<AsyncCallResult>> ps;
            std::vector<Veigar*> from;
            auto take = [&](size_t k) {
                // a target that was uninitialised does not answer
                if (ps[k]->second.wait_for(std::chrono::milliseconds(un ? 300 : 60000)) == std::future_status::ready) {
                    CallResult r = ps[k]->second.get();
                    if (r.isSuccess()) answered++;
                } else if (!un) fail("a promise call was never completed");
                from[k]->releaseCall(ps[k]->first);
                ps.erase(ps.begin() + (long)k);
                from.erase(from.begin() + (long)k);
            };
            int n = 0;
            for (auto& o : c.ops) {
                if ((int)(o.at(0) % nt) != t) continue;
                n++;
                Veigar& a = *v[(size_t)(o.at(1) % ni)];
                const std::string to = chan(o.at(2));
                const char* fn = nameOf(o.at(3));
                std::string arg((size_t)o.at(4), 'a');
                if (o.k == "sync") { calls++; CallResult r = a.syncCall(to, un ? 300 : 60000, fn, n, arg); if (r.isSuccess()) answered++; else if (r.errorMessage.empty()) fail("a failed call has no explanation"); }
                else if (o.k == "async") { calls++; ps.push_back(a.asyncCall(to, 60000, fn, n, arg)); from.push_back(&a); }
                else if (o.k == "cb") {
                    calls++;
                    cbMade++;
                    Veigar* pa = &a;
                    bool again = o.at(4) % 7 == 0;
                    a.asyncCall([&, pa, again, to](const CallResult& r) {
                        if (r.isSuccess()) answered++;
                        if (again) { pa->timeoutOfRWLock(); pa->bindNames(); cbMade++; pa->asyncCall([&](const CallResult&) { cbDone++; }, to, 60000, "f", 1, std::string("again")); }
                        cbDone++;
                    }, to, 60000, fn, n, arg);
                } else if (o.k == "bind") bindOne(a, o.at(3));
                else if (o.k == "unbind") a.unbind(fn);
                else if (o.k == "names") { for (auto& s : a.bindNames()) if (s.empty()) fail("an empty name is bound"); }
                else if (o.k == "setlock") a.setTimeoutOfRWLock(20000 + (uint32_t)o.at(4));
                else if (o.k == "getlock") { if (a.timeoutOfRWLock() < 20000) fail("the lock timeout is wrong"); }
                else if (o.k == "release") { if (!ps.empty()) { size_t k = (size_t)o.at(4) % ps.size(); if (o.at(4) % 3) take(k); else { from[k]->releaseCall(ps[k]->first); ps.erase(ps.begin() + (long)k); from.erase(from.begin() + (long)k); } } }
                else if (o.k == "getters") { a.isInit(); if (a.channelName() != chan(o.at(1))) fail("the channel name is wrong"); a.msgQueueCapacity(); a.expectedMsgMaxSize(); }
                else if (o.k == "initagain") { if (!un && !a.init(chan(o.at(1)), (uint32_t)c.get("cap"), 600)) fail("init of an initialised instance with its own name failed"); }
                else if (o.k == "nobody") { calls++; CallResult r = a.syncCall(prefix() + "nobody", un ? 300 : 60000, fn, n, arg); if (r.isSuccess()) fail("a call to nobody succeeded"); }
                else if (o.k == "uninit") { if (un) a.uninit(); }
            }
            while (!ps.empty()) take(0);
        });
        for (auto& t : th) t.join();
        phase("callbacks");
        if (!un && !waitFor(60000, [&] { return cbDone.load() >= cbMade.load(); })) fail(strf("%d callbacks never ran", cbMade.load() - cbDone.load()));
        phase("uninit");
        std::vector<std::thread> us;
        for (int i = 0; i < ni; i++) us.emplace_back([&, i] { v[(size_t)i]->uninit(); });
        for (auto& t : us) t.join();
        if (un && cbDone.load() != cbMade.load()) fail(strf("%d callbacks did not run although all instances are uninitialised", cbMade.load() - cbDone.load()));
        vpw::perturbOff();
        for (auto& x : v) VP_CHECK(!x->isInit(), "still initialised");
    }
    v.clear();
    metric("calls", calls);
    metric("answered", answered);
    if (c.get("uninit")) label("uninit in the middle");
    if (nt >= 2 && kinds.size() >= 4) nontrivial();
}
