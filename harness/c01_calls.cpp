// C01: every call gets its own answer, exactly once.
#include "rpc.h"
#ifdef VP_WRAP
#include "wrap.h"
#endif
#include <string.h>
using namespace vp;
using namespace rpc;

static const char* kNames[] = {"f", "f0", "f1", "f2", "f9", "f10", "f11", "f1_0", "0", "1", "11", "f_1", "g", "f 1",
                               "a_very_long_function_name_that_does_not_fit_in_any_small_string_buffer_0123456789"};
static const int kNameNum = 15;
static const int kMaxTok = 4096;

void vpInfo(Info& i) {
    i.id = "C01";
    i.watchdogMs = 90000;
    i.rule = "A case is 1..3 processes with 1..3 instances each and 4..150 calls issued from 1..6 threads per process: synchronous, promise (issued in bunches, collected later) and callback calls, to any instance "
             "including the caller's own, optionally nested (a remote function or a completion callback makes a further call), with function names that extend one another by digits, varying payloads and function durations, and "
             "random pauses at synchronisation points. Every call carries a unique token the answer must repeat. Non-trivial: at least 2 calls were in flight at once and at least two styles or names were used.";
}

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    int procs = (int)r.weighted({0, 6, 3, 1});
    c.cfg["procs"] = procs;
    c.cfg["inst"] = r.range(1, procs == 1 ? 4 : 2);
    c.cfg["threads"] = r.range(1, 6);
    c.cfg["cap"] = r.chance(1, 4) ? r.range(2, 20) : r.range(30, 200);
    c.cfg["size"] = r.pick(std::vector<int64_t>{60, 200, 400, 1024, 10240});
    if (c.cfg["size"] < 400) c.cfg["cap"] = r.range(2400 / c.cfg["size"], 200);  // most messages are larger than the receive buffers, which have to grow
    const bool big = c.cfg["size"] < 400 || r.chance(1, 4);
    c.cfg["perturb"] = r.chance(1, 2) ? r.range(5, 250) : 0;
    c.cfg["maxus"] = r.range(10, 1500);
    int64_t total = c.cfg["inst"] * procs;
    int64_t n = r.chance(1, 5) ? r.range(60, thorough ? 400 : 150) : r.range(4, 60);
    int favour = (int)r.below(3);
    for (int64_t i = 0; i < n; i++) {
        int style = favour == 2 ? (r.chance(2, 3) ? 1 : (int)r.below(3)) : (int)r.below(3);
        int64_t nested = r.chance(1, 4) ? r.range(1, 4) : 0;
        int64_t delay = r.chance(1, 3) ? r.small(3000) : 0;
        int64_t sz = r.chance(1, 6) ? r.range(0, 2000) : r.small(60);
        // process, thread, from, to, style, name, nested, delay, size, collect-after, size of the answer
        c.ops.push_back(Op("call", {r.below(procs), r.below(c.cfg["threads"]), r.below(c.cfg["inst"]), r.below(total), style,
                                    r.chance(1, 3) ? r.below(3) : r.below(kNameNum), nested, delay, sz, r.chance(1, 4) ? 1 : 0,
                                    r.chance(big ? 2 : 1, big ? 3 : 6) ? r.range(0, 2000) : 0}));
    }
    return c;
}

namespace {
struct Shared {
    std::atomic<int> ready, done, err, gone;
    std::atomic<int> exec[kMaxTok];
    std::atomic<int> compl_[kMaxTok];
    std::atomic<int> nextTok;
    std::atomic<int> inFlight, maxInFlight;
    std::atomic<int> nestedCalls;
};
Shared* S;

typedef std::tuple<int, int, uint64_t, uint64_t, int, std::string> Ans;  // instance, name, token, payload hash, nested outcome, payload

std::string chan(int64_t i) { return prefix() + "i" + std::to_string(i); }

void enter() {
    int n = ++S->inFlight;
    int m = S->maxInFlight;
    while (n > m && !S->maxInFlight.compare_exchange_weak(m, n)) {}
}
void verify(const CallResult& cr, const char* what, int inst, int name, uint64_t tok, uint64_t h, int64_t asize) {
    if (!cr.isSuccess()) fail(strf("%s call %llu to instance %d, function '%s' failed: %s", what, (unsigned long long)tok, inst, kNames[name], describe(cr).c_str()));
    Ans a;
    try {
        a = cr.obj.get().as<Ans>();
    } catch (...) {
        fail(strf("%s call %llu: the answer has the wrong type", what, (unsigned long long)tok));
    }
    if (std::get<0>(a) != inst || std::get<1>(a) != name || std::get<2>(a) != tok || std::get<3>(a) != h)
        fail(strf("%s call %llu to instance %d, function '%s' got the answer (instance %d, function %d, token %llu, payload %s)", what, (unsigned long long)tok, inst, kNames[name], std::get<0>(a), std::get<1>(a),
                  (unsigned long long)std::get<2>(a), std::get<3>(a) == h ? "ok" : "altered"));
    if (std::get<5>(a) != payload(tok + 1, asize)) fail(strf("%s call %llu to instance %d, function '%s': the payload of the answer is altered (%zu bytes, expected %lld)", what, (unsigned long long)tok, inst, kNames[name], std::get<5>(a).size(), (long long)asize));
    int ex = S->exec[tok];
    if (ex != 1) fail(strf("%s call %llu was answered but its function ran %d times", what, (unsigned long long)tok, ex));
    int cp = ++S->compl_[tok];
    if (cp != 1) fail(strf("%s call %llu was completed %d times", what, (unsigned long long)tok, cp));
    --S->inFlight;
}
uint64_t newTok() {
    int t = S->nextTok++;
    if (t >= kMaxTok) discard("too many tokens");
    return (uint64_t)t;
}

struct Node {  // instances of this process
    std::vector<std::unique_ptr<Veigar>> v;
    int first = 0, total = 0;
    std::unique_ptr<std::atomic<int>[]> selfNested;  // per local instance, at most 2 of the 3 dispatcher threads wait for the own instance
    std::unique_ptr<std::atomic<int>[]> cbSync;
    std::atomic<int> pendingCb{0};
};

void callSync(Node& nd, int li, int target, int name, int64_t nested, int64_t delay, int64_t size, int64_t asize, const char* what) {
    uint64_t tok = newTok();
    std::string p = payload(tok, size);
    enter();
    CallResult cr = nd.v[(size_t)li]->syncCall(chan(target), 60000, kNames[name], tok, (int)nested, delay, p, asize);
    verify(cr, what, target, name, tok, fnv(p), asize);
}
void callCb(Node& nd, int li, int target, int name, int64_t nested, int64_t delay, int64_t size, int64_t asize, int depth) {
    uint64_t tok = newTok();
    std::string p = payload(tok, size);
    uint64_t h = fnv(p);
    nd.pendingCb++;
    enter();
    Node* n = &nd;
    nd.v[(size_t)li]->asyncCall([=](const CallResult& cr) {
        verify(cr, "callback", target, name, tok, h, asize);
        if (depth > 0) {
            S->nestedCalls++;
            callCb(*n, li, (target + 1) % n->total, (name + 1) % kNameNum, 0, 0, size / 2, asize / 2, depth - 1);
            // a synchronous call from a completion callback: at most 2 of the 3 threads wait
            if (++n->cbSync[(size_t)li] <= 2) callSync(*n, li, (target + 1) % n->total, name, 0, 0, 3, asize, "sync-in-callback");
            --n->cbSync[(size_t)li];
        }
        n->pendingCb--;
    }, chan(target), 60000, kNames[name], tok, (int)nested, delay, p, asize);
}

void runProcess(const Case& c, int proc, int procs) {
    const int ni = (int)std::max<int64_t>(1, c.get("inst"));
    Node nd;
    nd.first = proc * ni;
    nd.total = procs * ni;
    nd.selfNested.reset(new std::atomic<int>[(size_t)ni]());
    nd.cbSync.reset(new std::atomic<int>[(size_t)ni]());
#ifdef VP_WRAP
    if (c.get("perturb")) vpw::perturb(caseSeed() + (uint64_t)proc, (int)c.get("perturb"), (int)c.get("maxus"));
#endif
    phase("init");
    for (int i = 0; i < ni; i++) {
        nd.v.emplace_back(new Veigar());
        Veigar& v = *nd.v.back();
        v.setTimeoutOfRWLock(20000);
        const int self = nd.first + i;
        for (int nm = 0; nm < kNameNum; nm++) {
            bool ok = v.bind(kNames[nm], [=, &nd](uint64_t tok, int nested, int64_t delay, std::string p, int64_t asize) -> Ans {
                if (tok >= (uint64_t)kMaxTok) fail("a function was called with an unknown token");
                int n = ++S->exec[tok];
                if (n != 1) fail(strf("the function of call %llu ran %d times", (unsigned long long)tok, n));
                if (delay) sleepUs(delay);
                if (nested == 1 && self + 1 < nd.total) {  // toward a higher instance: no cycles
                    S->nestedCalls++;
                    callSync(nd, i, self + 1, (nm + 1) % kNameNum, 0, 0, 5, asize / 3, "nested");
                } else if (nested == 2) {  // own channel
                    if (++nd.selfNested[(size_t)i] <= 2) {
                        S->nestedCalls++;
                        callSync(nd, i, self, (nm + 2) % kNameNum, 0, 0, 5, asize / 2, "nested-self");
                    }
                    --nd.selfNested[(size_t)i];
                } else if (nested == 3) {
                    S->nestedCalls++;
                    callCb(nd, i, (self + 1) % nd.total, nm, 0, 0, 7, asize / 2, 0);
                }
                return Ans(self, nm, tok, fnv(p), nested, payload(tok + 1, asize));
            });
            VP_CHECK(ok, "bind failed");
        }
        VP_CHECK(v.init(chan(self), (uint32_t)std::max<int64_t>(1, c.get("cap")), (uint32_t)std::max<int64_t>(16, c.get("size"))), "init failed");
    }
    S->ready++;
    if (!waitFor(60000, [&] { return S->ready.load() >= procs; })) discard("the processes did not start in time");
    phase("calls");
    const int nt = (int)std::max<int64_t>(1, c.get("threads"));
    std::vector<std::thread> th;
    const int64_t maxSize = std::max<int64_t>(16, c.get("size")) * std::max<int64_t>(1, c.get("cap")) - 400;
    for (int t = 0; t < nt; t++) {
        th.emplace_back([&, t] {
            struct Pend { std::shared_ptr<AsyncCallResult> a; int li, target, name; uint64_t tok, h; int64_t asize; };
            std::vector<Pend> pend;
            auto collect = [&] {
                for (auto& p : pend) {
                    if (!p.a || !p.a->second.valid()) fail("a promise call has no future");
                    if (p.a->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready)
                        fail(strf("promise call %llu to instance %d, function '%s' never completed", (unsigned long long)p.tok, p.target, kNames[p.name]));
                    CallResult cr = p.a->second.get();
                    verify(cr, "promise", p.target, p.name, p.tok, p.h, p.asize);
                    nd.v[(size_t)p.li]->releaseCall(p.a->first);
                }
                pend.clear();
            };
            for (auto& o : c.ops) {
                if (o.k != "call" || o.at(0) % procs != proc || o.at(1) % nt != t) continue;
                int li = (int)(o.at(2) % ni), target = (int)(o.at(3) % nd.total), name = (int)(o.at(5) % kNameNum);
                int64_t nested = o.at(6), delay = o.at(7), size = std::max<int64_t>(0, std::min<int64_t>(o.at(8), maxSize)), asize = std::max<int64_t>(0, std::min<int64_t>(o.at(10), maxSize));
                if (o.at(4) == 0) callSync(nd, li, target, name, nested, delay, size, asize, "sync");
                else if (o.at(4) == 1) {
                    uint64_t tok = newTok();
                    std::string p = payload(tok, size);
                    enter();
                    auto a = nd.v[(size_t)li]->asyncCall(chan(target), 60000, kNames[name], tok, (int)nested, delay, p, asize);
                    pend.push_back(Pend{a, li, target, name, tok, fnv(p), asize});
                    if (o.at(9)) collect();
                } else callCb(nd, li, target, name, nested, delay, size, asize, nested == 4 ? 1 : 0);
            }
            collect();
        });
    }
    for (auto& t : th) t.join();
    phase("callbacks");
    auto idle = [&] { return nd.pendingCb.load() == 0; };
    if (!waitFor(60000, idle)) fail(strf("%d callback calls never completed", nd.pendingCb.load()));
    S->done++;
    phase("others");
    // callbacks issued by functions that others called
    if (!waitFor(80000, [&] { return S->done.load() >= procs && S->inFlight.load() == 0; })) fail(strf("%d calls never completed", S->inFlight.load()));
    waitFor(60000, idle);
    sleepUs(2000);
    S->gone++;
    waitFor(60000, [&] { return S->gone.load() >= procs; });
    phase("uninit");
    for (auto& v : nd.v) v->uninit();
    nd.v.clear();
#ifdef VP_WRAP
    vpw::perturbOff();
#endif
}
}  // namespace

bool vpValid(const Case& c) { return c.get("inst") >= 1 && c.get("procs") >= 1 && c.get("threads") >= 1 && c.get("cap") >= 1 && c.get("size") >= 50 && c.get("cap") * c.get("size") >= 600; }

void vpRun(const Case& c) {
    S = shared<Shared>();
    const int procs = (int)std::max<int64_t>(1, c.get("procs"));
    std::vector<Proc> ps;
    for (int p = 1; p < procs; p++) ps.push_back(Proc::start([&, p] { runProcess(c, p, procs); }));
    runProcess(c, 0, procs);
    for (auto& p : ps) {
        int st = p.wait(60000);
        if (st != 0) fail(strf("a process of the case ended with %d", st));
    }
    std::set<int64_t> styles, names;
    for (auto& o : c.ops) { styles.insert(o.at(4)); names.insert(o.at(5)); }
    for (int t = 0; t < S->nextTok.load() && t < kMaxTok; t++) {
        VP_CHECK(S->exec[t] == 1, "call %d: executed %d times", t, S->exec[t].load());
        VP_CHECK(S->compl_[t] == 1, "call %d: completed %d times", t, S->compl_[t].load());
    }
    metric("calls", S->nextTok.load());
    metric("nested", S->nestedCalls.load());
    metric("max_in_flight_sum", S->maxInFlight.load());
    if (procs > 1) label("several processes");
    if (S->nestedCalls.load()) label("nested calls");
    if (S->maxInFlight.load() >= 12) label("12 or more calls in flight");
    if (S->maxInFlight.load() >= 2 && (styles.size() > 1 || names.size() > 1)) nontrivial();
}
