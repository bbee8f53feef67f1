// C09: instance lifecycle and bindings follow a simple state machine.
#include "rpc.h"
#include <algorithm>
using namespace vp;
using namespace rpc;

static const char* kFn[] = {"f", "g", "f1", "a name with spaces", "f\n", "F", "", "0", "the_quite_long_name_of_a_function_that_is_bound_to_an_instance"};
static const int kFnNum = 9;

void vpInfo(Info& i) {
    i.id = "C09";
    i.watchdogMs = 40000;
    i.rule = "A case is a sequence of 5..80 operations (init with all kinds of names, capacities and sizes, uninit, bind, unbind, list, call in every style, set and read the settings, move construction and assignment of instances, "
             "initialised or not and also while others call them, destruction) on 1..4 instances, each compared with a model. Non-trivial: at least one instance was initialised twice or moved with bindings, and at least 3 calls were made.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["inst"] = r.range(1, 4);
    int64_t n = r.range(5, thorough ? 160 : 80);
    int64_t ni = c.cfg["inst"];
    for (int64_t k = 0; k < n; k++) {
        int64_t i = r.below(ni);
        switch (r.weighted({8, 4, 10, 4, 3, 14, 2, 3, 3, 1, 3, 1})) {
            case 0: c.ops.push_back(Op("init", {i, r.below(9), r.weighted({1, 1, 6, 6, 1, 1, 1}), r.weighted({1, 1, 6, 6, 1, 1})})); break;
            case 1: c.ops.push_back(Op("uninit", {i})); break;
            case 2: c.ops.push_back(Op("bind", {i, r.below(kFnNum), r.below(4)})); break;
            case 3: c.ops.push_back(Op("unbind", {i, r.below(kFnNum)})); break;
            case 4: c.ops.push_back(Op("names", {i})); break;
            case 5: c.ops.push_back(Op("call", {i, r.below(8), r.below(kFnNum), r.below(3)})); break;
            case 6: c.ops.push_back(Op("lock", {i, r.range(5000, 100000)})); break;
            case 7: c.ops.push_back(Op("movector", {i})); break;
            case 8: c.ops.push_back(Op("moveassign", {i, r.below(ni)})); break;
            case 9: c.ops.push_back(Op("fresh", {i})); break;
            case 11: c.ops.push_back(Op("movebusy", {i, r.range(1, 6)})); break;
            default: c.ops.push_back(Op("get", {i})); break;
        }
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("inst") >= 1; }

namespace {
struct Model {
    bool init = false;
    std::string name;
    uint32_t cap = 0, size = 0, lock = 30;
    std::map<std::string, uint64_t> fns;
};
}  // namespace

void vpRun(const Case& c) {
    const int ni = (int)c.get("inst");
    std::vector<std::unique_ptr<Veigar>> v;
    std::vector<Model> m((size_t)ni);
    uint64_t nextFn = 1;
    for (int i = 0; i < ni; i++) {
        v.emplace_back(new Veigar());
        m[(size_t)i].lock = v.back()->timeoutOfRWLock();
    }
    std::vector<std::string> names;
    for (int i = 0; i < 5; i++) names.push_back(prefix() + "n" + std::to_string(i));
    names.push_back("");
    names.push_back(std::string(300, 'n'));
    names.push_back("a/b/" + prefix());
    names.push_back(names[0] + "0");
    static const std::vector<int64_t> caps = {0, 1, 3, 20, 2147483648ll, 4294967295ll, 200}, sizes = {0, 16, 400, 1000, 2147483648ll, 4294967295ll};
    int inits = 0, calls = 0, moved = 0, running = 0, n = 0;
    std::set<int> initOnce;
    auto check = [&](int i, const char* when) {
        Model& x = m[(size_t)i];
        Veigar& a = *v[(size_t)i];
        VP_CHECK(a.isInit() == x.init, "%s: isInit is %d", when, a.isInit());
        VP_CHECK(a.channelName() == x.name, "%s: channelName is '%s' instead of '%s'", when, a.channelName().c_str(), x.name.c_str());
        VP_CHECK(a.msgQueueCapacity() == x.cap && a.expectedMsgMaxSize() == x.size, "%s: the queue settings are %u, %u instead of %u, %u", when, a.msgQueueCapacity(), a.expectedMsgMaxSize(), x.cap, x.size);
        VP_CHECK(a.timeoutOfRWLock() == x.lock, "%s: the lock timeout is %u instead of %u", when, a.timeoutOfRWLock(), x.lock);
        std::vector<std::string> b = a.bindNames();
        std::sort(b.begin(), b.end());
        std::vector<std::string> e;
        for (auto& k : x.fns) e.push_back(k.first);
        if (b != e) {
            std::string s;
            for (auto& k : b) s += "'" + k + "' ";
            fail(strf("%s: the bound names are %s(%zu expected)", when, s.c_str(), e.size()));
        }
    };
    for (auto& o : c.ops) {
        n++;
        const int i = (int)(o.at(0) % ni);
        Model& x = m[(size_t)i];
        Veigar& a = *v[(size_t)i];
        std::string what = strf("operation %d (%s)", n, o.k.c_str());
        phase(what);
        if (o.k == "init") {
            const std::string& nm = names[(size_t)o.at(1) % names.size()];
            uint32_t cap = (uint32_t)caps[(size_t)o.at(2) % caps.size()], size = (uint32_t)sizes[(size_t)o.at(3) % sizes.size()];
            bool taken = false;
            for (int j = 0; j < ni; j++) taken |= j != i && m[(size_t)j].init && m[(size_t)j].name == nm;
            if (taken) continue;  // channel names are unique by the user's responsibility
            bool expect;
            if (x.init) expect = nm == x.name;
            else expect = !nm.empty() && nm.size() < 200 && nm.find('/') == std::string::npos && cap > 0 && size > 0 && cap <= 2147483647u && size <= 2147483647u;
            bool got = a.init(nm, cap, size);
            VP_CHECK(got == expect, "%s: init('%s', %u, %u) of an instance that is %sinitialised%s returned %d", what.c_str(), nm.substr(0, 60).c_str(), cap, size, x.init ? "" : "not ", x.init ? (" as " + x.name).c_str() : "", got);
            if (got && !x.init) {
                x.init = true;
                x.name = nm;
                x.cap = cap;
                x.size = size;
                if (!initOnce.insert(i).second) inits++;
            }
        } else if (o.k == "uninit") {
            a.uninit();
            if (o.at(0) > 50) a.uninit();
            if (x.init) { x.init = false; x.fns.clear(); }
        } else if (o.k == "bind") {
            std::string fn = kFn[o.at(1) % kFnNum];
            bool expect = !fn.empty() && !x.fns.count(fn);
            uint64_t id = nextFn++;
            bool got;
            switch (o.at(2) % 4) {
                case 0: got = a.bind(fn, [id] { return id; }); break;
                case 1: got = a.bind(fn, std::function<uint64_t()>([id] { return id; })); break;
                case 2: { std::string big(100, 'x'); got = a.bind(fn, [id, big] { return id + big.size() - 100; }); break; }
                default: { auto p = std::make_shared<uint64_t>(id); got = a.bind(fn, [p]() -> uint64_t { return *p; }); break; }
            }
            VP_CHECK(got == expect, "%s: bind('%s') returned %d", what.c_str(), fn.c_str(), got);
            if (got) x.fns[fn] = id;
        } else if (o.k == "unbind") {
            std::string fn = kFn[o.at(1) % kFnNum];
            a.unbind(fn);
            x.fns.erase(fn);
        } else if (o.k == "lock") {
            a.setTimeoutOfRWLock((uint32_t)o.at(1));
            if (o.at(1) > 0) x.lock = (uint32_t)o.at(1);
            else x.lock = a.timeoutOfRWLock();
        } else if (o.k == "movector") {
            if (!x.fns.empty()) moved++;
            if (x.init) running++;
            std::unique_ptr<Veigar> b(new Veigar(std::move(a)));
            v[(size_t)i] = std::move(b);
        } else if (o.k == "moveassign") {
            int j = (int)(o.at(1) % ni);
            if (i != j && m[(size_t)j].init) continue;
            if (!x.fns.empty()) moved++;
            if (x.init) running++;
            Veigar& src = *v[(size_t)i];
            *v[(size_t)j] = std::move(src);
            if (i != j) {
                m[(size_t)j] = x;
                v[(size_t)i].reset(new Veigar());
                uint32_t dflt = v[(size_t)i]->timeoutOfRWLock();
                m[(size_t)i] = Model();
                m[(size_t)i].lock = dflt;
                check(j, (what + ", the target").c_str());
            }
        } else if (o.k == "movebusy") {
            // it is moved while another one calls it
            Veigar* other = nullptr;
            for (int j = 0; j < ni; j++) if (j != i && m[(size_t)j].init && (uint64_t)m[(size_t)j].cap * m[(size_t)j].size >= 600) other = v[(size_t)j].get();
            if (!x.init || x.fns.empty() || !other || (uint64_t)x.cap * x.size < 600) continue;
            const std::string fn = x.fns.begin()->first;
            const uint64_t id = x.fns.begin()->second;
            other->setTimeoutOfRWLock(20000);
            a.setTimeoutOfRWLock(20000);
            std::atomic<bool> stop{false};
            std::atomic<int> made{0};
            std::thread t([&] {
                for (int k = 0; k < 400 && (!stop || k < 3); k++) {
                    uint64_t got = 0;
                    CallResult cr = other->syncCall(x.name, 20000, fn);
                    VP_CHECK(cr.isSuccess() && cr.convertObject(got) && got == id, "%s: a call of an instance that is being moved: %s", what.c_str(), describe(cr).c_str());
                    made++;
                }
            });
            for (int64_t k = 0; k < o.at(1); k++) {
                for (int w = 0; w < 200 && made < 2 * k; w++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                std::unique_ptr<Veigar> b(new Veigar(std::move(*v[(size_t)i])));
                v[(size_t)i] = std::move(b);
                running++;
            }
            stop = true;
            t.join();
            calls += made;
            v[(size_t)i]->setTimeoutOfRWLock(x.lock);
            for (int j = 0; j < ni; j++) if (v[(size_t)j].get() == other) other->setTimeoutOfRWLock(m[(size_t)j].lock);
        } else if (o.k == "fresh") {
            a.uninit();
            v[(size_t)i].reset(new Veigar());
            m[(size_t)i] = Model();
            m[(size_t)i].lock = v[(size_t)i]->timeoutOfRWLock();
            VP_CHECK(!v[(size_t)i]->isInit(), "a new instance is initialised");
        } else if (o.k == "call") {
            std::string ch = names[(size_t)o.at(1) % names.size()];
            std::string fn = kFn[o.at(2) % kFnNum];
            Model* target = nullptr;
            for (auto& y : m) if (y.init && y.name == ch) target = &y;
            bool fits = x.init && (uint64_t)x.cap * x.size >= 600 && (!target || (uint64_t)target->cap * target->size >= 600);
            if (x.init && target && !fits) continue;  // the queues may be too small for the call or the answer
            a.setTimeoutOfRWLock(20000);
            CallResult cr;
            if (o.at(3) == 0) cr = a.syncCall(ch, 20000, fn);
            else if (o.at(3) == 1) {
                auto p = a.asyncCall(ch, 20000, fn);
                VP_CHECK(p && p->second.valid(), "%s: no future", what.c_str());
                VP_CHECK(p->second.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "%s: never completed", what.c_str());
                cr = p->second.get();
                a.releaseCall(p->first);
            } else {
                auto pr = std::make_shared<std::promise<std::pair<CallResult, int>>>();
                auto cnt = std::make_shared<std::atomic<int>>(0);
                auto f = pr->get_future();
                a.asyncCall([pr, cnt](const CallResult& r) {
                    if (++*cnt > 1) fail("a callback ran twice");
                    CallResult copy;
                    copy.errCode = r.errCode;
                    copy.errorMessage = r.errorMessage;
                    copy.obj = veigar_msgpack::clone(r.obj.get());
                    pr->set_value(std::make_pair(std::move(copy), 0));
                }, ch, 20000, fn);
                VP_CHECK(f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "%s: the callback did not run", what.c_str());
                cr = std::move(f.get().first);
            }
            a.setTimeoutOfRWLock(x.lock);
            calls++;
            bool expect = x.init && target && target->fns.count(fn);
            if (expect) {
                uint64_t got = 0;
                VP_CHECK(cr.isSuccess(), "%s: calling the bound function '%s' failed: %s", what.c_str(), fn.c_str(), describe(cr).c_str());
                VP_CHECK(cr.convertObject(got) && got == target->fns[fn], "%s: the call of '%s' reached the function number %llu instead of %llu", what.c_str(), fn.c_str(), (unsigned long long)got, (unsigned long long)target->fns[fn]);
            } else {
                VP_CHECK(!cr.isSuccess() && !cr.errorMessage.empty(), "%s: calling '%s' on %s from an instance that is %sinitialised: %s", what.c_str(), fn.c_str(), target ? "a channel without it" : "a channel nobody serves", x.init ? "" : "not ",
                         describe(cr).c_str());
            }
        }
        for (int j = 0; j < ni; j++) check(j, (what + (j == i ? "" : ", another instance")).c_str());
    }
    phase("end");
    for (auto& x : v) x->uninit();
    for (int i = 0; i < ni; i++) VP_CHECK(!v[(size_t)i]->isInit(), "still initialised after uninit");
    v.clear();
    metric("calls", calls);
    metric("moves with bindings", moved);
    metric("moves of running instances", running);
    metric("initialised again", inits);
    if ((inits || moved) && calls >= 3) nontrivial();
}
