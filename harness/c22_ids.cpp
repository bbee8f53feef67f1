// C22: call ids are never reused.
#include "rpc.h"
#include "raw.h"
#include <unordered_map>
using namespace vp;
using namespace rpc;
using mref::Node;

void vpInfo(Info& i) {
    i.id = "C22";
    i.watchdogMs = 90000;
    i.rule = "A case is 1..5 processes (forked before or after the parent used the library, started at the same moment) with 1..4 instances each, living 1..4 times (initialised again, created anew, moved), whose threads issue 1..150 calls per "
             "life in every style under names that look like parts of ids; all calls go to a bare queue that collects the ids. Non-trivial: at least two instances or lives and 20 calls.";
}
static const char* kNames[] = {"f", "f1", "f11", "1", "11", "0", "_", "_1", "1_f", "_f_1", "10_1", "", "a very long function name that goes on and on and on and on and on", "-", "00000000-0000-0000-0000-000000000000"};
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["procs"] = r.range(1, 5);
    c.cfg["inst"] = r.range(1, 4);
    c.cfg["lives"] = r.range(1, 4);
    c.cfg["threads"] = r.range(1, 4);
    c.cfg["calls"] = r.chance(1, 3) ? r.range(1, 5) : r.range(5, thorough ? 400 : 150);   // per thread and life
    c.cfg["warm"] = r.below(2);       // the parent uses the library before it forks
    c.cfg["nested"] = r.below(2);     // children fork children
    c.cfg["mode"] = r.below(3);       // the next life: initialised again, a new object, moved
    c.cfg["many"] = r.chance(1, 6) ? r.range(20, 300) : 0;   // many short lives
    int64_t n = r.range(1, 6);
    for (int64_t i = 0; i < n; i++) c.ops.push_back(Op("name", {r.below(15)}));
    return c;
}
bool vpValid(const Case& c) { return c.get("procs") >= 1 && c.get("inst") >= 1 && c.get("lives") >= 1 && c.get("threads") >= 1 && c.get("calls") >= 1 && !c.ops.empty(); }

namespace {
const int kMax = 1 << 17;
struct Sh {
    std::atomic<int> n, go, ready, finished;
    struct { char id[200]; int proc, inst, life; } ids[kMax];
};
Sh* S;
std::string chR() { return prefix() + "r"; }
void note(const std::string& id, int proc, int inst, int life) {
    int k = S->n++;
    if (k >= kMax) return;
    snprintf(S->ids[k].id, sizeof S->ids[k].id, "%s", id.c_str());
    S->ids[k].proc = proc;
    S->ids[k].inst = inst;
    S->ids[k].life = life;
}
void proc(const Case& c, int p, int procs) {
    const int ni = (int)c.get("inst"), nt = (int)c.get("threads"), lives = (int)c.get("lives");
    std::vector<std::unique_ptr<Veigar>> v;
    for (int i = 0; i < ni; i++) v.emplace_back(new Veigar());
    S->ready++;
    waitFor(30000, [&] { return S->ready.load() >= procs; }, 50);
    for (int life = 0; life < lives; life++) {
        for (int i = 0; i < ni; i++) {
            v[(size_t)i]->setTimeoutOfRWLock(20000);
            VP_CHECK(v[(size_t)i]->init(prefix() + "c" + std::to_string(p * 100 + i), 20, 500), "init failed");
        }
        std::vector<std::thread> th;
        for (int t = 0; t < ni * nt; t++) th.emplace_back([&, t] {
            Veigar& a = *v[(size_t)(t % ni)];
            Rng r(caseSeed() + (uint64_t)(p * 1000 + t * 10 + life));
            std::vector<std::string> rel;
            for (int64_t k = 0; k < c.get("calls"); k++) {
                std::string fn = kNames[c.ops[(size_t)r.below((int64_t)c.ops.size())].at(0) % 15];
                bool nobody = r.chance(1, 4);
                std::string to = nobody ? prefix() + "nobody" : chR();
                switch (r.weighted({6, 2, r.chance(1, 20) ? 1 : 0})) {
                    case 0: {
                        auto x = a.asyncCall(to, 20000, fn, 1);
                        if (!x) fail("no call");
                        if (nobody) note(x->first, p, t % ni, life);
                        rel.push_back(x->first);
                        break;
                    }
                    case 1: a.asyncCall([](const CallResult&) {}, to, 20000, fn, 2); break;
                    default: a.syncCall(to, 5, fn, 3); break;
                }
            }
            for (auto& x : rel) if (r.chance(1, 2)) a.releaseCall(x);
        });
        for (auto& t : th) t.join();
        for (int i = 0; i < ni; i++) {
            // a last call that is answered: everything before it was sent
            v[(size_t)i]->uninit();
            if (c.get("mode") == 1) v[(size_t)i].reset(new Veigar());
            else if (c.get("mode") == 2) v[(size_t)i].reset(new Veigar(std::move(*v[(size_t)i])));
        }
    }
    if (c.get("many")) {
        Veigar& a = *v[0];
        for (int64_t k = 0; k < c.get("many"); k++) {
            VP_CHECK(a.init(prefix() + "m" + std::to_string(p), 2, 300), "init failed");
            auto x = a.asyncCall(prefix() + "nobody", 20000, "f", 1);
            note(x->first, p, 50, (int)k);
            a.uninit();
        }
    }
    S->finished++;
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int procs = (int)c.get("procs");
    if (c.get("warm")) {
        Veigar w;
        VP_CHECK(w.init(prefix() + "w", 2, 300), "init failed");
        auto x = w.asyncCall(prefix() + "nobody", 20000, "f", 1);
        note(x->first, 99, 0, 0);
        w.uninit();
    }
    std::vector<Proc> ps;
    for (int p = 0; p < procs; p++) {
        if (c.get("nested") && p % 2 == 1) {
            ps.push_back(Proc::start([&, p] {
                Proc q = Proc::start([&, p] { proc(c, p, procs); });
                int st = q.wait(80000);
                if (st) fail(strf("a process ended with %d", st));
            }));
        } else ps.push_back(Proc::start([&, p] { proc(c, p, procs); }));
    }
    raw::Queue q;
    VP_CHECK(q.create(chR() + "_call", 2000, 300), "raw queue");
    std::unordered_map<std::string, int> wire;
    int total = 0;
    bool last = false;
    for (;;) {
        std::string m;
        if (!q.pop(m, 5)) {
            if (last) break;
            if (S->finished.load() >= procs) last = true;
            for (auto& p : ps) {
                int st;
                if (p.pid > 0 && waitpid(p.pid, &st, WNOHANG) == p.pid) { p.pid = -1; if (st) fail(strf("a process ended with status %d", st)); }
            }
            continue;
        }
        size_t off = 0;
        Node n;
        VP_CHECK(mref::decode(m, off, n) == mref::OK && n.t == Node::ARR && n.c.size() == 5 && n.c[1].t == Node::STR, "no call");
        total++;
        if (++wire[n.c[1].s] > 1) fail("two calls were sent with the id " + n.c[1].s + " (the second one from " + n.c[2].s + ")");
    }
    for (auto& p : ps) if (p.pid > 0) { int st = p.wait(20000); if (st) fail(strf("a process ended with %d", st)); }
    std::unordered_map<std::string, int> seen;
    int k = std::min(S->n.load(), kMax);
    for (int i = 0; i < k; i++) {
        auto& x = S->ids[i];
        auto it = seen.find(x.id);
        if (it != seen.end()) fail(strf("two calls have the id %s: process %d instance %d life %d, and process %d instance %d life %d", x.id, S->ids[it->second].proc, S->ids[it->second].inst, S->ids[it->second].life, x.proc, x.inst, x.life));
        seen[x.id] = i;
        if (wire.count(x.id)) fail(strf("two calls have the id %s", x.id));
    }
    q.close();
    metric("ids", total + k);
    if (total + k >= 20 && procs * c.get("inst") * c.get("lives") >= 2) nontrivial();
}
