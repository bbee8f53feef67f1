// C20: rebinding takes effect atomically while calls arrive.
#include "rpc.h"
#include "wrap.h"
#include <algorithm>
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C20";
    i.watchdogMs = 60000;
    i.rule = "A case lets 1..3 threads bind and unbind numbered versions of 1..3 functions (several threads on the same name, functions that unbind themselves or bind, list and unbind others, captured state whose destructor uses the interface, slow functions that are unbound while they run) while 1..4 threads in 1..2 processes "
             "call them and a thread lists the names. All events carry stamps of one counter; each outcome is checked against the intervals in which a version was possibly or definitely bound. "
             "Non-trivial: at least 4 rebinds and 20 calls of which some succeeded and some reported an unknown function.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["names"] = r.range(1, 3);
    c.cfg["binders"] = r.range(1, 3);
    c.cfg["procs"] = r.range(1, 2);
    c.cfg["threads"] = r.range(1, 3);
    c.cfg["calls"] = r.range(10, thorough ? 200 : 80);
    c.cfg["callgap"] = r.pick(std::vector<int64_t>{0, 0, 100, 1000});
    c.cfg["slow"] = r.pick(std::vector<int64_t>{0, 0, 200, 3000});
    c.cfg["perturb"] = r.chance(1, 2) ? r.range(10, 300) : 0;
    c.cfg["list"] = r.below(2);
    int64_t n = r.range(4, thorough ? 120 : 60);
    for (int64_t i = 0; i < n; i++)
        c.ops.push_back(Op(r.chance(1, 2) ? "bind" : "unbind", {r.below(3), r.below(3), r.chance(1, 2) ? 0 : r.small(3000), r.below(8)}));  // thread, name, pause, kind of function
    return c;
}
bool vpValid(const Case& c) { return c.get("names") >= 1 && c.get("binders") >= 1 && c.get("procs") >= 1 && c.get("threads") >= 1 && c.get("calls") >= 1; }

namespace {
const int kCalls = 8192, kOps = 4096, kNames = 3;
struct OpRec { int64_t s, e; int name, version; bool bind, ok; };      // version: the one bound
struct CallRec { std::atomic<int64_t> s, e; int name; std::atomic<int> result; std::atomic<int> runs, ranVersion; std::atomic<int64_t> at; };  // result: -1 unknown function
struct Sh {
    std::atomic<int64_t> clock;
    std::atomic<int> nOps, nCalls, alive, ready, done;
    OpRec ops[kOps];
    CallRec calls[kCalls];
};
Sh* S;
int64_t stamp() { return ++S->clock; }
std::string chT() { return prefix() + "t"; }
const char* nameOf(int n) { static const char* k[] = {"f", "f1", "another"}; return k[n % 3]; }

std::atomic<bool> reenter{false};
std::atomic<int> reentered{0}, inside{0};
struct State {   // what a function captures
    int version;
    Veigar* onEnd = nullptr;   // its destructor uses this interface
    int endKind = 0;
    volatile uint64_t magic;
    std::vector<int> heap;
    explicit State(int v) : version(v), magic(0xfeedfacecafebeefull), heap(40, v) { S->alive++; }
    ~State() {
        magic = 0xdeadull;
        for (auto& x : heap) x = -1;
        if (onEnd && reenter) {   // the end of captured state is user code: it may use the interface
            reentered++;
            if (endKind == 6) onEnd->bindNames();
            else onEnd->unbind("never bound");
        }
        S->alive--;
    }
    void check(const char* when) const {
        if (magic != 0xfeedfacecafebeefull) fail(strf("the captured state of version %d is destroyed %s its function runs", version, when));
        for (int x : heap) if (x != version) fail(strf("the captured state of version %d is changed %s its function runs", version, when));
    }
};
struct Copied {   // captured by value: each copy's end uses the interface
    Veigar* v;
    ~Copied() { if (v && reenter) v->bindNames(); }
};
int record(bool bind, int name, int version, int64_t s, bool ok) {
    int64_t e = stamp();
    int k = S->nOps++;
    if (k >= kOps) discard("too many operations");
    S->ops[k] = OpRec{s, e, name, version, bind, ok};
    return k;
}
std::atomic<int> nextVersion{1};
void doUnbind(Veigar& v, int name) {
    int64_t s = stamp();
    v.unbind(nameOf(name));
    record(false, name, 0, s, true);
}
void doBind(Veigar& v, int name, int kind, int64_t slow) {
    int ver = nextVersion++;
    auto st = std::make_shared<State>(ver);
    if (kind >= 6) { st->onEnd = &v; st->endKind = kind; }
    Veigar* pv = &v;
    Copied cp{kind == 7 ? &v : nullptr};
    auto f = [cp, st, pv, name, kind, slow, ver](int tok) -> int {
        st->check("before");
        CallRec& c = S->calls[tok];
        c.at = stamp();
        c.ranVersion = ver;
        if (++c.runs != 1) fail(strf("call %d ran twice", tok));
        if (c.name != name) fail(strf("call %d of '%s' ran a function bound as '%s'", tok, nameOf(c.name), nameOf(name)));
        if (kind == 0) doUnbind(*pv, name);       // unbinds itself
        if (kind == 1 && reenter) {   // a function that uses the function table
            inside++;
            std::string side = strf("side%d", ver * 100000 + tok);
            if (!pv->bind(side, [tok]() { return tok; })) fail("a function could not bind a free name");
            if (pv->bind(side, [tok]() { return tok; })) fail("a function could bind a name that it had bound");
            auto names = pv->bindNames();
            if (std::find(names.begin(), names.end(), side) == names.end()) fail("a name bound by a function is not listed");
            pv->unbind(side);
            names = pv->bindNames();
            if (std::find(names.begin(), names.end(), side) != names.end()) fail("a name unbound by a function is listed");
        }
        if (slow && kind < 5) sleepUs(slow);
        st->check("while");
        return ver;
    };
    st.reset();
    int64_t s = stamp();
    bool ok;
    if (kind >= 6) {   // bind owns the function, also one that it refuses
        if (kind % 2) ok = v.bind(nameOf(name), std::move(f));
        else { std::function<int(int)> g(std::move(f)); ok = v.bind(nameOf(name), std::move(g)); }
    } else if (kind % 2) ok = v.bind(nameOf(name), f);
    else ok = v.bind(nameOf(name), std::function<int(int)>(f));
    record(true, name, ver, s, ok);
}
void caller(Veigar& v, const Case& c, int seed) {
    Rng r(caseSeed() + (uint64_t)seed);
    for (int64_t i = 0; i < c.get("calls"); i++) {
        int tok = S->nCalls++;
        if (tok >= kCalls) discard("too many calls");
        CallRec& k = S->calls[tok];
        int nm = (int)r.below(c.get("names"));
        k.name = nm;
        k.s = stamp();
        int style = (int)r.below(3);
        CallResult cr;
        if (style == 0) cr = v.syncCall(chT(), 40000, nameOf(nm), tok);
        else if (style == 1) {
            auto p = v.asyncCall(chT(), 40000, nameOf(nm), tok);
            if (p->second.wait_for(std::chrono::seconds(40)) != std::future_status::ready) fail("a call was never completed");
            cr = p->second.get();
            v.releaseCall(p->first);
        } else {
            auto pr = std::make_shared<std::promise<CallResult>>();
            auto f = pr->get_future();
            v.asyncCall([pr](const CallResult& x) { CallResult y; y.errCode = x.errCode; y.errorMessage = x.errorMessage; y.obj = veigar_msgpack::clone(x.obj.get()); pr->set_value(std::move(y)); }, chT(), 40000, nameOf(nm), tok);
            if (f.wait_for(std::chrono::seconds(40)) != std::future_status::ready) fail("a call was never completed");
            cr = f.get();
        }
        int64_t e = stamp();
        int got = 0;
        if (cr.isSuccess()) {
            if (!cr.convertObject(got) || got <= 0) fail("a strange result");
            k.result = got;
        } else {
            if (cr.errorMessage.find(nameOf(nm)) == std::string::npos) fail("a call failed although its function is just unknown or bound: " + describe(cr));
            k.result = -1;
        }
        k.e = e;
        if (c.get("callgap")) sleepUs(r.below(c.get("callgap")));
    }
}
}  // namespace

void vpRun(const Case& c) {
    S = shared<Sh>();
    const int procs = (int)c.get("procs"), nt = (int)c.get("threads"), names = (int)std::min<int64_t>(kNames, c.get("names"));
    Proc other;
    if (procs > 1) other = Proc::start([&] {
        waitFor(20000, [] { return S->ready.load() > 0; });
        if (c.get("perturb")) vpw::perturb(caseSeed() + 9, (int)c.get("perturb") / 2, 300);
        Veigar v;
        v.setTimeoutOfRWLock(20000);
        VP_CHECK(v.init(prefix() + "c1", 60, 400), "init");
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] { caller(v, c, 100 + t); });
        for (auto& t : th) t.join();
        v.uninit();
    });
    struct ListRec { int64_t s, e; std::vector<std::string> names; };
    std::vector<ListRec> lists;
    if (c.get("perturb")) vpw::perturb(caseSeed(), (int)c.get("perturb"), 300);
    {
        Veigar t, v;
        t.setTimeoutOfRWLock(20000);
        v.setTimeoutOfRWLock(20000);
        VP_CHECK(t.init(chT(), 60, 400) && v.init(prefix() + "c0", 60, 400), "init");
        reenter = true;
        S->ready = 1;
        std::vector<std::thread> th;
        for (int i = 0; i < nt; i++) th.emplace_back([&, i] { caller(i % 2 ? t : v, c, i); });
        std::vector<std::thread> bi;
        const int nb = (int)std::min<int64_t>(3, c.get("binders"));
        std::atomic<bool> stop{false};
        for (int b = 0; b < nb; b++) bi.emplace_back([&, b] {
            for (auto& o : c.ops) {
                if ((int)(o.at(0) % nb) != b) continue;
                if (o.at(2)) sleepUs(o.at(2));
                int nm = (int)(o.at(1) % names);
                if (o.k == "bind") doBind(t, nm, (int)(o.at(3) % 8), c.get("slow"));
                else doUnbind(t, nm);
            }
        });
        std::thread li;
        if (c.get("list")) li = std::thread([&] {
            while (!stop && lists.size() < 3000) {
                ListRec l;
                l.s = stamp();
                l.names = t.bindNames();
                l.e = stamp();
                lists.push_back(std::move(l));
                sleepUs(150);
            }
        });
        phase("load");
        for (auto& x : bi) x.join();
        for (auto& x : th) x.join();
        if (procs > 1) { int st = other.wait(50000); if (st) fail(strf("a process ended with %d", st)); }
        stop = true;
        if (li.joinable()) li.join();
        vpw::perturbOff();
        phase("uninit");
        reenter = false;
        t.uninit();
        v.uninit();
        VP_CHECK(t.bindNames().empty(), "names are bound after uninit");
        VP_CHECK(S->alive.load() == 0, "the captured state of %d functions is never released", S->alive.load());
    }
    phase("evaluation");
    // intervals
    struct Ver { int64_t pf, pl, df, dl; int name; };   // possibly bound pf..pl, definitely bound df..dl (empty when df > dl)
    std::map<int, Ver> vers;
    const int no = S->nOps.load();
    int rebinds = 0;
    for (int i = 0; i < no; i++) {
        OpRec& b = S->ops[i];
        if (!b.bind || !b.ok) continue;
        rebinds++;
        Ver v;
        v.name = b.name;
        v.pf = b.s;
        v.df = b.e;
        v.pl = v.dl = INT64_MAX;
        for (int k = 0; k < no; k++) {
            OpRec& u = S->ops[k];
            if (u.bind || u.name != b.name) continue;
            if (u.s > b.e) v.pl = std::min(v.pl, u.e);
            if (u.e > b.s) v.dl = std::min(v.dl, u.s);
        }
        vers[b.version] = v;
    }
    for (auto& a : vers)
        for (auto& b : vers)
            if (a.first < b.first && a.second.name == b.second.name) {
                int64_t f = std::max(a.second.df, b.second.df), l = std::min(a.second.dl, b.second.dl);
                if (f < l) fail(strf("the versions %d and %d of '%s' were both bound although bind reports only free names as bound", a.first, b.first, nameOf(a.second.name)));
            }
    for (int i = 0; i < no; i++) {   // refused binds
        OpRec& b = S->ops[i];
        if (!b.bind || b.ok) continue;
        bool possible = false;
        for (auto& v : vers) if (v.second.name == b.name && v.second.pf <= b.e && v.second.pl >= b.s) possible = true;
        if (!possible) fail(strf("bind of the free name '%s' was refused", nameOf(b.name)));
    }
    int okCalls = 0, unknown = 0;
    const int nc = S->nCalls.load();
    for (int i = 0; i < nc; i++) {
        CallRec& k = S->calls[i];
        int64_t s = k.s, e = k.e;
        if (k.result > 0) {
            okCalls++;
            auto it = vers.find(k.result);
            if (it == vers.end()) fail(strf("call %d ran version %d that was never bound", i, k.result.load()));
            if (k.runs != 1 || k.ranVersion != k.result) fail(strf("call %d was answered by version %d but ran version %d", i, k.result.load(), k.ranVersion.load()));
            const Ver& v = it->second;
            if (v.pf > e || v.pl < s) fail(strf("call %d (%lld..%lld) ran version %d of '%s' that could only be bound in %lld..%lld", i, (long long)s, (long long)e, k.result.load(), nameOf(v.name), (long long)v.pf, (long long)v.pl));
        } else {
            unknown++;
            if (k.runs != 0) fail(strf("call %d was reported as unknown but ran version %d", i, k.ranVersion.load()));
            for (auto& v : vers)
                if (v.second.name == k.name && v.second.df <= s && e <= v.second.dl)
                    fail(strf("call %d (%lld..%lld) of '%s' was reported as unknown although version %d was bound all the time (%lld..%lld)", i, (long long)s, (long long)e, nameOf(k.name), v.first, (long long)v.second.df, (long long)v.second.dl));
        }
    }
    for (auto& l : lists) {
        std::vector<std::string> a = l.names;
        std::sort(a.begin(), a.end());
        if (std::adjacent_find(a.begin(), a.end()) != a.end()) fail("a bound name is listed twice");
        for (int n = 0; n < names; n++) {
            bool in = std::binary_search(a.begin(), a.end(), std::string(nameOf(n)));
            bool possible = false, definite = false;
            for (auto& v : vers) {
                if (v.second.name != n) continue;
                if (v.second.pf <= l.e && v.second.pl >= l.s) possible = true;
                if (v.second.df <= l.s && l.e <= v.second.dl) definite = true;
            }
            if (in && !possible) fail(strf("'%s' is listed although it was not bound", nameOf(n)));
            if (!in && definite) fail(strf("'%s' is not listed although it was bound all the time", nameOf(n)));
        }
    }
    metric("rebinds", rebinds);
    metric("calls answered", okCalls);
    metric("calls of unknown functions", unknown);
    metric("captured states whose end used the interface", reentered);
    metric("functions that bound and unbound others", inside);
    metric("lists", (int64_t)lists.size());
    if (rebinds >= 4 && okCalls + unknown >= 20 && okCalls && unknown) nontrivial();
}
