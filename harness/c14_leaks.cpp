// C14: nothing leaks.
#include "rpc.h"
#include "raw.h"
#include <dirent.h>
#include <string.h>
#include <stdio.h>
#include <fstream>
using namespace vp;
using namespace rpc;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

void vpInfo(Info& i) {
    i.id = "C14";
    i.watchdogMs = 120000;
    i.rule = "A case is a history of 4..30 operations on one or two instances (calls of every style that succeed, fail, time out, are too large, released early or abandoned, throwing functions and callbacks, peers that appear, restart, go away or "
             "never answer, full queues, failing and repeated initialisations, moving), which is run as 4 lives of the instances; within a life the completed part is run three times (27 times if something has grown). Threads, descriptors, mappings of shared memory, live heap "
             "blocks (counted by allocator hooks) and names in /dev/shm are compared after every life, the first four also between the rounds. Non-trivial: at least 3 kinds of operations and 20 calls.";
}
static const char* kKinds[] = {"ok", "unknown", "nobody", "timeout", "bigarg", "bigres", "throws", "async", "early", "abandon", "cb", "cbthrow", "cbnobody", "restart", "rawpeer", "burst", "fillout", "fillresp", "initagain", "badinit", "move", "bind", "late", "badarg", "mute", "mute"};
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["cap"] = r.pick(std::vector<int64_t>{3, 10, 50});
    c.cfg["size"] = r.pick(std::vector<int64_t>{300, 1000});
    int64_t n = r.range(4, thorough ? 60 : 30);
    for (int64_t i = 0; i < n; i++) {
        int64_t k = r.below((int64_t)(sizeof(kKinds) / sizeof(*kKinds)));
        c.ops.push_back(Op(kKinds[k], {r.below(2), r.range(1, 4), r.range(0, 200)}));   // self or peer, how often, size
    }
    return c;
}
bool vpValid(const Case& c) { return c.get("cap") >= 3 && c.get("size") >= 300; }

namespace {
std::atomic<int64_t> gBlocks{0};
void onMalloc(const volatile void*, size_t) { gBlocks.fetch_add(1, std::memory_order_relaxed); }
void onFree(const volatile void*) { gBlocks.fetch_sub(1, std::memory_order_relaxed); }

int entries(const char* dir) {
    DIR* d = opendir(dir);
    if (!d) return -1;
    int n = 0;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}
int shmMaps() {
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return -1;
    char b[1024];
    int n = 0;
    while (fgets(b, sizeof b, f)) if (strstr(b, "/dev/shm/")) n++;
    fclose(f);
    return n;
}
struct Census {
    int threads = 0, fds = 0, maps = 0, names = 0;
    int64_t blocks = 0;
};
Census take() {
    Census c;
    c.threads = entries("/proc/self/task");
    c.fds = entries("/proc/self/fd");
    c.maps = shmMaps();
    c.names = (int)shmNames(prefix()).size();
    c.blocks = gBlocks.load();
    return c;
}
std::string chA() { return prefix() + "a"; }
std::string chB() { return prefix() + "b"; }
std::string chR() { return prefix() + "r"; }
struct Bad {
    int a;
    template <typename P>
    void msgpack_pack(P& pk) const { pk.pack_array(1); throw std::runtime_error("cannot be packed"); }
};
struct World {
    const Case& c;
    Veigar a, b;
    std::atomic<int> cbMade{0}, cbDone{0};
    std::atomic<int> slow{0};
    int calls = 0;
    std::vector<std::shared_ptr<AsyncCallResult>> abandoned;
    raw::Queue rc, rr;   // a peer that takes calls and never answers
    raw::Queue mc, mr;   // the same, there for the whole life
    explicit World(const Case& cc) : c(cc) {}

    void bindAll(Veigar& v) {
        VP_CHECK(v.bind("f", [](std::string s) { return s; }), "bind");
        VP_CHECK(v.bind("big", [](int n) { return std::string((size_t)n, 'b'); }), "bind");
        VP_CHECK(v.bind("boom", []() { throw std::runtime_error("boom"); }), "bind");
        VP_CHECK(v.bind("boom2", []() { throw 42; }), "bind");
        VP_CHECK(v.bind("slow", [this](int us) { slow++; sleepUs(us); return 1; }), "bind");
    }
    void start(Veigar& v, const std::string& name, int64_t cap) {
        v.setTimeoutOfRWLock(20000);
        bindAll(v);
        VP_CHECK(v.init(name, (uint32_t)cap, (uint32_t)c.get("size")), "init of %s failed", name.substr(prefix().size()).c_str());
    }
    void good(const CallResult& r) { if (!r.isSuccess()) fail("a call that should succeed failed: " + describe(r)); }
    void bad(const CallResult& r, const char* what) { if (r.isSuccess()) fail(std::string(what) + " succeeded"); }
    void cb(bool boom, const std::string& to, const char* fn) {
        cbMade++;
        a.asyncCall([this, boom](const CallResult&) {
            cbDone++;
            if (boom) throw std::runtime_error("callback");
        }, to, 30000, fn, std::string("x"));
    }
    void op(const Op& o, bool final) {
        const std::string to = o.at(0) ? chB() : chA();
        const int64_t total = c.get("cap") * c.get("size");
        const std::string arg((size_t)o.at(2), 'x');
        for (int64_t n = 0; n < o.at(1, 1); n++) {
            calls++;
            if (o.k == "ok") good(a.syncCall(to, 30000, "f", arg));
            else if (o.k == "unknown") bad(a.syncCall(to, 30000, "nix", arg), "a call to an unknown function");
            else if (o.k == "nobody") bad(a.syncCall(prefix() + "nobody" + std::to_string(n), 30000, "f", arg), "a call to nobody");
            else if (o.k == "timeout") {
                if (n == 0) bad(a.syncCall(to, 1, "slow", 30000), "a call that is too slow");
            } else if (o.k == "late") {
                if (n == 0) { auto p = a.asyncCall(to, 30000, "slow", 3000); p->second.wait_for(std::chrono::milliseconds(1)); a.releaseCall(p->first); }
            } else if (o.k == "bigarg") bad(a.syncCall(to, 30000, "f", std::string((size_t)total + 10, 'y')), "a call larger than the queue");
            else if (o.k == "bigres") bad(a.syncCall(to, 30000, "big", (int)total + 10), "a call with an answer larger than the queue");
            else if (o.k == "throws") { bad(a.syncCall(to, 30000, "boom"), "a throwing function"); bad(a.syncCall(to, 30000, "boom2"), "a throwing function"); }
            else if (o.k == "badarg") { bad(a.syncCall(to, 30000, "f", Bad{1}), "a call that cannot be packed"); cbMade++; a.asyncCall([this](const CallResult&) { cbDone++; }, to, 30000, "f", Bad{1}); }
            else if (o.k == "async") {
                auto p = a.asyncCall(to, 30000, "f", arg);
                if (p->second.wait_for(std::chrono::seconds(60)) != std::future_status::ready) fail("a promise call was never completed");
                good(p->second.get());
                a.releaseCall(p->first);
            } else if (o.k == "early") { auto p = a.asyncCall(to, 30000, "f", arg); a.releaseCall(p->first); }
            else if (o.k == "abandon") { if (final) abandoned.push_back(a.asyncCall(n % 2 ? chR() : to, 30000, "f", arg)); }
            else if (o.k == "cb") cb(false, to, "f");
            else if (o.k == "cbthrow") cb(true, to, "f");
            else if (o.k == "cbnobody") cb(o.at(2) % 2, prefix() + "nobody", "f");
            else if (o.k == "restart") {
                good(a.syncCall(chB(), 30000, "f", arg));
                good(b.syncCall(chA(), 30000, "f", arg));
                b.uninit();
                bad(a.syncCall(chB(), 500, "f", arg), "a call to an uninitialised peer");
                start(b, chB(), c.get("cap") + n);
                good(a.syncCall(chB(), 30000, "f", arg));
            } else if (o.k == "rawpeer") {
                if (rc.q) { rc.close(); rr.close(); bad(a.syncCall(chR(), 500, "f", arg), "a call to a peer that has gone"); }
                else {
                    if (!rc.create(chR() + "_call", 4, 300) || !rr.create(chR() + "_resp", 4, 300)) fail("raw peer");
                    auto p = a.asyncCall(chR(), 30000, "f", std::string("x"));
                    std::string m;
                    if (!rc.pop(m, 20000)) fail("the raw peer got no call");
                    a.releaseCall(p->first);
                }
            } else if (o.k == "mute") {
                if (!mc.q && (!mc.create(prefix() + "m_call", 20, 300) || !mr.create(prefix() + "m_resp", 20, 300))) fail("raw peer");
                if ((o.at(2) + n) % 3) bad(a.syncCall(prefix() + "m", (uint32_t)(2 + n), "f", arg), "a call that is never answered");
                else {
                    auto p = a.asyncCall(prefix() + "m", (uint32_t)(2 + n), "f", arg);
                    p->second.wait_for(std::chrono::milliseconds(2));
                    a.releaseCall(p->first);
                }
                std::string m;
                mc.pop(m, 100);
            } else if (o.k == "burst") {
                std::vector<std::thread> t;
                for (int i = 0; i < 3; i++) t.emplace_back([&, i] {
                    for (int k = 0; k < 4; k++) {
                        if (k & 1) good(a.syncCall(to, 30000, "f", arg));
                        else { auto p = a.asyncCall(to, 30000, "f", arg); if (i) p->second.wait(); a.releaseCall(p->first); }
                    }
                });
                for (auto& x : t) x.join();
                calls += 11;
            } else if (o.k == "fillout") {   // calls that cannot be sent any more at uninit: the target is full
                if (final) {
                    if (!rc.q && (!rc.create(chR() + "_call", 2, 300) || !rr.create(chR() + "_resp", 2, 300))) fail("raw peer");
                    for (int i = 0; i < 6; i++) {
                        if (i & 1) { cbMade++; a.asyncCall([this](const CallResult&) { cbDone++; }, chR(), 30000, "f", arg); }
                        else abandoned.push_back(a.asyncCall(chR(), 30000, "f", arg));
                    }
                }
            } else if (o.k == "fillresp") {  // answers that cannot be sent at uninit: the caller's queue is full
                if (final) {
                    if (!rc.q && (!rc.create(chR() + "_call", 2, 300) || !rr.create(chR() + "_resp", 2, 300))) fail("raw peer");
                    raw::Queue q;
                    if (!q.open(chA() + "_call")) fail("open");
                    for (int i = 0; i < 5; i++) q.push(mref::encode(raw::callNode("raw" + std::to_string(i), chR(), "f", {mref::Node::str(arg)})), 20000);
                    q.close();
                }
            } else if (o.k == "initagain") { if (!a.init(chA(), 5, 300)) fail("a repeated init failed"); if (a.init(chA() + "other", 5, 300)) fail("init with another name succeeded"); }
            else if (o.k == "badinit") {
                Veigar x;
                bindAll(x);
                std::string name = prefix() + "bad";
                uint32_t cap = 5, size = 300;
                switch ((o.at(2) + n) % 6) {
                    case 0: name = ""; break;
                    case 1: name += "/no/such"; break;
                    case 2: name += std::string(250 - name.size() - strlen("_call_shm"), 'l'); break;      // the shared memory is possible, the semaphores are not
                    case 3: name += std::string(300, 'l'); break;
                    case 4: cap = 0; break;
                    default: cap = 2000000000u; size = 2000000000u; break;
                }
                if (x.init(name, cap, size)) { if ((o.at(2) + n) % 6 == 2) x.uninit(); else fail("an impossible init succeeded"); }
                if (!x.init(prefix() + "bad", 3, 300)) fail("init after a failed init failed");
                x.uninit();
            } else if (o.k == "move") {
                Veigar x;
                bindAll(x);
                Veigar y(std::move(x));
                if (!y.init(prefix() + "mv", 3, 300)) fail("init of a moved instance failed");
                good(a.syncCall(prefix() + "mv", 30000, "f", arg));
                y.uninit();
            } else if (o.k == "bind") {
                auto big = std::make_shared<std::string>(1000, 'c');
                for (int i = 0; i < 3; i++) {
                    std::string nm = "extra" + std::to_string(i);
                    if (!a.bind(nm, [big](int x) { return x + (int)big->size(); })) fail("bind");
                    a.syncCall(chA(), 30000, nm, 1);
                    a.unbind(nm);
                }
            }
        }
    }
    void quiet() {
        if (!waitFor(60000, [&] { return cbDone.load() >= cbMade.load(); })) fail(strf("%d callbacks never ran", cbMade.load() - cbDone.load()));
        // whatever was still on its way has arrived after this
        int64_t last = -1;
        int same = 0;
        for (int i = 0; i < 2000 && same < 20; i++) {
            sleepUs(2000);
            int64_t x = gBlocks.load();
            same = x == last ? same + 1 : 0;
            last = x;
        }
    }
    void life(int nr) {
        start(a, chA(), c.get("cap"));
        start(b, chB(), c.get("cap"));
        int rounds = 1;
        auto round = [&](bool final) { for (auto& o : c.ops) op(o, final); };
        phase(strf("life %d", nr));
        if (nr == 1) {
            // within a life: the first two rounds warm it up (connections, buffers); suspicious growth is measured over more rounds,
            // because every thread allocates a few things once
            auto census = [&](bool settle, int64_t goal) {
                round(false);
                if (rc.q) { rc.close(); rr.close(); bad(a.syncCall(chR(), 500, "f", 1), "a call to a peer that has gone"); }
                quiet();
                rounds++;
                // a worker thread that still holds something is given the time to let go of it
                if (settle) waitFor(400, [&] { return gBlocks.load() <= goal; }, 2000);
                return take();
            };
            census(false, 0);
            Census m1 = census(false, 0), m2 = census(true, m1.blocks);
            if (m2.blocks > m1.blocks || m2.fds > m1.fds || m2.threads > m1.threads || m2.maps > m1.maps) {
                const int N = 12;
                for (int k = 0; k < N; k++) census(false, 0);
                Census h = census(true, m2.blocks);
                for (int k = 0; k < N; k++) census(false, 0);
                Census e = census(true, h.blocks);
                auto grows = [&](const char* what, int64_t x, int64_t y, int64_t z, int64_t slack) {
                    if (z - x >= 2 * N - slack && z - y >= N - slack) fail(strf("%s grow while an instance runs: %lld, then %lld and %lld after %d and %d repetitions of the same completed calls", what, (long long)x, (long long)y, (long long)z, N + 1, 2 * N + 2));
                };
                grows("live heap blocks", m2.blocks, h.blocks, e.blocks, 2);
                grows("descriptors", m2.fds, h.fds, e.fds, 2);
                grows("threads", m2.threads, h.threads, e.threads, 2);
                grows("mappings", m2.maps, h.maps, e.maps, 2);
                label("measured again");
            }
        }
        round(true);
        a.uninit();
        b.uninit();
        if (cbDone.load() != cbMade.load()) fail("a callback did not run although the instance is uninitialised");
        for (auto& p : abandoned) if (p->second.valid() && p->second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) fail("a call is not completed although the instance is uninitialised");
        abandoned.clear();
        rc.close();
        rr.close();
        mc.close();
        mr.close();
        auto left = shmNames(prefix());
        if (!left.empty()) fail("a name is left after uninit: " + left[0]);
    }
};
}  // namespace

void vpRun(const Case& c) {
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    {   // warm up: thread stacks, locale, streams
        World w(c);
        w.life(0);
    }
    const int R = 5;
    Census m[R];
    int calls = 0;
    for (int k = 0; k < R; k++) {
        {
            World w(c);
            w.life(k + 1);
            calls = w.calls;
        }
        if (k) waitFor(1000, [&] { Census x = take(); return x.threads <= m[0].threads && x.fds <= m[0].fds && x.blocks <= m[0].blocks; }, 5000);
        else sleepUs(20000);
        m[k] = take();
    }
    if (m[R - 1].threads > m[0].threads) fail(strf("%d threads before, %d after another %d lives", m[0].threads, m[R - 1].threads, R - 1));
    if (m[R - 1].threads != 1) fail(strf("%d threads are left", m[R - 1].threads - 1));
    if (m[R - 1].fds > m[0].fds) fail(strf("%d descriptors before, %d after another %d lives", m[0].fds, m[R - 1].fds, R - 1));
    if (m[R - 1].maps > 0) fail(strf("%d mappings of shared memory are left", m[R - 1].maps));
    bool up = true;
    std::string s;
    for (int k = 0; k < R; k++) {
        if (k && m[k].blocks <= m[k - 1].blocks) up = false;
        s += (k ? ", " : "") + std::to_string((long long)m[k].blocks);
    }
    if (up || m[R - 1].blocks - m[0].blocks >= 40) fail("live heap blocks grow with every life of the instances: " + s);
    metric("block noise", std::abs((long long)(m[R - 1].blocks - m[0].blocks)));
    metric("calls", calls);
    std::set<std::string> kinds;
    for (auto& o : c.ops) kinds.insert(o.k), label(o.k);
    if (kinds.size() >= 3 && calls >= 20) nontrivial();
}
