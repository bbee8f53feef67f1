// C18: resource failures during initialisation and while contacting peers.
#include "rpc.h"
#include "wrap.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/resource.h>
using namespace vp;
using namespace rpc;

namespace vpw { bool injectThread(); int injectErr(); }
extern "C" __attribute__((visibility("default"))) int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    typedef int (*Fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
    if (vpw::injectThread()) return vpw::injectErr();
    return real(t, a, f, p);
}

void vpInfo(Info& i) {
    i.id = "C18";
    i.watchdogMs = 60000;
    i.rule = "A case is a history of initialisations of an instance (fresh, used before, over remains of a killed process) in which system calls that acquire resources (shm_open, ftruncate, mmap, fstat, sem_open, pthread_create) fail at a generated "
             "position, once, several times or from then on, with a generated error, or in which descriptors or address space run out; or a history of calls of every style to four instances of another process, which restart in between, "
             "while such calls fail. After each refused initialisation the state, threads, descriptors, mappings and names are compared with those before; afterwards everything must work. Non-trivial: at least one failure was injected and reported.";
}
static const int kErrs[] = {ENOMEM, EMFILE, ENFILE, EACCES, ENOSPC, EAGAIN, EPERM, EINVAL, ENOENT, EEXIST};
static const int kMasks[] = {vpw::SHM_OPEN, vpw::FTRUNCATE, vpw::MMAP, vpw::SEM_OPEN, vpw::FSTAT, vpw::THREAD};
// position of a failure: how many calls of that kind an initialisation makes at most
static int64_t position(Rng& r, int mask) {
    switch (mask) {
        case vpw::THREAD: return r.range(1, 12);
        case vpw::SEM_OPEN: return r.range(1, 5);
        case vpw::SHM_OPEN: case vpw::FTRUNCATE: case vpw::MMAP: return r.range(1, 3);
        default: return r.range(1, 40);
    }
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    int64_t mode = r.weighted({10, 6, 3, 1});   // INIT, CONTACT, FDS, MEMORY
    c.cfg["mode"] = mode;
    int64_t n = r.range(2, thorough ? 24 : 10);
    if (mode == 0) {
        c.cfg["used"] = r.below(2);       // had a life before
        c.cfg["neighbour"] = r.below(2);  // another instance is working meanwhile
        c.cfg["stale"] = r.chance(1, 4);
        for (int64_t i = 0; i < n; i++) {
            if (r.chance(1, 5)) { c.ops.push_back(Op("init", {r.range(1, 40), r.range(500, 3000)})); continue; }
            int mask = r.chance(1, 4) ? (int)vpw::ALLRES : kMasks[r.below(6)];
            c.ops.push_back(Op("fault", {mask, position(r, mask), r.chance(2, 3) ? 1 : r.chance(1, 2) ? r.range(2, 4) : 100000, kErrs[r.below(10)], r.range(1, 40), r.range(500, 3000), r.below(3)}));
        }
    } else if (mode == 1) {
        for (int64_t i = 0; i < n * 2; i++) {
            switch (r.weighted({6, 4, 3})) {
                case 0: {
                    int mask = r.chance(1, 3) ? (int)(vpw::ALLRES & ~vpw::THREAD) : kMasks[r.below(5)];
                    c.ops.push_back(Op("fault", {mask, r.range(1, 4), r.chance(2, 3) ? 1 : r.chance(1, 2) ? r.range(2, 4) : 100000, kErrs[r.below(10)]}));
                    c.ops.push_back(Op("call", {r.below(4), r.below(3), r.range(1, 4)}));
                    break;
                }
                case 1: c.ops.push_back(Op("call", {r.below(4), r.below(3), r.range(1, 4)})); break;
                default: c.ops.push_back(Op("restart", {r.below(4)})); break;
            }
        }
    } else if (mode == 2) {
        c.cfg["neighbour"] = r.below(2);
        for (int64_t i = 0; i < n; i++) c.ops.push_back(Op("limit", {r.range(0, 5), r.range(1, 40), r.range(500, 3000)}));
    } else {
        c.ops.push_back(r.chance(1, 4) ? Op("memory", {-1, 160 << 20}) : Op("memory", {r.range(0, 200), r.pick(std::vector<int64_t>{4096, 1 << 20, 16 << 20})}));
    }
    return c;
}
bool vpValid(const Case& c) {
    for (auto& o : c.ops) {
        if (o.k == "init" && (o.at(0) < 1 || o.at(1) < 500)) return false;
        if (o.k == "fault" && c.get("mode") == 0 && (o.at(4) < 1 || o.at(5) < 500)) return false;
        if (o.k == "limit" && (o.at(1) < 1 || o.at(2) < 500)) return false;
        if (o.k == "memory" && o.at(1) < 500) return false;
    }
    return true;
}

namespace {
int entries(const char* dir) {
    DIR* d = opendir(dir);
    if (!d) return -1;
    int n = 0;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}
int shmMaps() {
    FILE* f = fopen("/proc/self/maps", "r");
    if (!f) return -1;
    char b[1024];
    int n = 0;
    while (fgets(b, sizeof b, f)) if (strstr(b, "/dev/shm/")) n++;
    fclose(f);
    return n;
}
struct Census {
    int threads = 0, fds = 0, maps = 0, names = 0;
    bool operator==(const Census& o) const { return threads == o.threads && fds == o.fds && maps == o.maps && names == o.names; }
};
Census take() {
    Census c;
    c.threads = entries("/proc/self/task");
    c.fds = entries("/proc/self/fd");
    c.maps = shmMaps();
    c.names = (int)shmNames(prefix()).size();
    return c;
}
// A thread that was joined may still be listed for a moment.
Census settle(const Census& want) {
    Census c = take();
    waitFor(3000, [&] { c = take(); return c == want; }, 500);
    return c;
}
std::string text(const Census& c) { return strf("%d threads, %d descriptors, %d mappings of shared memory, %d names", c.threads, c.fds, c.maps, c.names); }
std::string chan(const char* s) { return prefix() + s; }
void bindAll(Veigar& v) {
    VP_CHECK(v.bind("f", [](std::string s) { return s + "!"; }), "bind");
    VP_CHECK(v.bind("g", [](int x) { return x + 1; }), "bind");
}
int threadsOfInit = 0;   // of a normal initialisation

struct Snapshot {
    std::string name;
    uint32_t cap, size, lock;
    std::set<std::string> funcs;
    explicit Snapshot(const Veigar& v) : name(v.channelName()), cap(v.msgQueueCapacity()), size(v.expectedMsgMaxSize()), lock(v.timeoutOfRWLock()) {
        for (auto& n : v.bindNames()) funcs.insert(n);
    }
    bool operator==(const Snapshot& o) const { return name == o.name && cap == o.cap && size == o.size && lock == o.lock && funcs == o.funcs; }
};
void works(Veigar& v, const char* when, Veigar* other) {
    CallResult r = v.syncCall(v.channelName(), 20000, "f", std::string("a"));
    if (!r.isSuccess() || r.obj.get().as<std::string>() != "a!") fail(std::string("a call to itself ") + when + ": " + describe(r));
    auto p = v.asyncCall(v.channelName(), 20000, "g", 4);
    if (p->second.wait_for(std::chrono::seconds(20)) != std::future_status::ready) fail(std::string("a promise call was not completed ") + when);
    r = p->second.get();
    v.releaseCall(p->first);
    if (!r.isSuccess() || r.obj.get().as<int>() != 5) fail(std::string("a promise call ") + when + ": " + describe(r));
    if (other) {
        r = other->syncCall(v.channelName(), 20000, "g", 7);
        if (!r.isSuccess() || r.obj.get().as<int>() != 8) fail(std::string("a call from the neighbour ") + when + ": " + describe(r));
        r = v.syncCall(other->channelName(), 20000, "g", 7);
        if (!r.isSuccess() || r.obj.get().as<int>() != 8) fail(std::string("a call to the neighbour ") + when + ": " + describe(r));
    }
}
// An initialisation during which something was refused returned ok.
void afterInit(Veigar& v, bool ok, const Snapshot& s, const Census& before, const std::string& what, const std::string& name, uint32_t cap, uint32_t size, Veigar* neighbour) {
    if (ok) {
        if (!v.isInit() || v.channelName() != name || v.msgQueueCapacity() != cap || v.expectedMsgMaxSize() != size) fail("initialised, but the state is wrong: " + what);
        if (threadsOfInit && take().threads - before.threads < threadsOfInit)
            fail(strf("initialise returned true although %s, but started %d threads instead of %d", what.c_str(), take().threads - before.threads, threadsOfInit));
        works(v, ("after an initialisation in which " + what).c_str(), neighbour);
        return;
    }
    if (v.isInit()) fail("initialise failed but the instance is initialised: " + what);
    Snapshot n(v);
    if (!(n == s))
        fail(strf("the instance changed by an initialisation that failed (%s): channel '%s' -> '%s', capacity %u -> %u, size %u -> %u, %zu -> %zu functions", what.c_str(), s.name.c_str(), n.name.c_str(), s.cap, n.cap, s.size, n.size, s.funcs.size(),
                  n.funcs.size()));
    Census after = settle(before);
    if (!(after == before)) {
        std::string names;
        for (auto& x : shmNames(prefix())) names += " " + x.substr(x.find(prefix()));
        fail("left behind by an initialisation that failed (" + what + "): before " + text(before) + "; after " + text(after) + " (" + names + " )");
    }
    int64_t t = nowUs();
    CallResult r = v.syncCall(name, 2000, "f", std::string("a"));
    if (r.isSuccess() || r.errorMessage.empty()) fail("a call of an instance whose initialisation failed: " + describe(r));
    if (nowUs() - t > 5000000) failTiming("a call of an instance whose initialisation failed took too long");
}

void runInit(const Case& c) {
    const bool limits = c.get("mode") == 2;
    std::unique_ptr<Veigar> nb;
    if (c.get("stale")) {
        phase("a process dies and leaves its queues behind");
        Proc p = Proc::start([&] {
            Veigar d;
            bindAll(d);
            if (!d.init(chan("i"), 7, 900)) _exit(1);
            ::kill(getpid(), SIGKILL);
        });
        if (p.wait(20000) != -SIGKILL) fail("the process that should have died did not");
    }
    Veigar v;
    v.setTimeoutOfRWLock(20000);
    bindAll(v);
    {   // how many threads a normal instance has
        Veigar w;
        Census a = take();
        VP_CHECK(a.threads == 1, "the case starts with %d threads", a.threads);
        VP_CHECK(w.init(chan("w"), 4, 600), "a normal initialisation failed");
        threadsOfInit = take().threads - a.threads;
        w.uninit();
        settle(a);
    }
    if (c.get("neighbour")) {
        nb.reset(new Veigar());
        nb->setTimeoutOfRWLock(20000);
        bindAll(*nb);
        VP_CHECK(nb->init(chan("n"), 10, 1000), "init of the neighbour failed");
        works(*nb, "of the neighbour", nullptr);
    }
    if (c.get("used")) {
        VP_CHECK(v.init(chan("old"), 5, 700), "init of the earlier life failed");
        works(v, "in the earlier life", nb.get());
        v.uninit();
        bindAll(v);
    }
    int injected = 0, reported = 0;
    // threads that were joined may still be listed
    auto calm = [&] { if (!waitFor(5000, [&] { return entries("/proc/self/task") == 1 + (nb ? threadsOfInit : 0); }, 300)) fail(strf("%d threads while %d instances are initialised", entries("/proc/self/task"), nb ? 1 : 0)); };
    calm();
    Census base = take();
    bool stale = c.get("stale") != 0;
    for (auto& o : c.ops) {
        const uint32_t cap = (uint32_t)(o.k == "init" ? o.at(0) : limits ? o.at(1) : o.at(4)), size = (uint32_t)(o.k == "init" ? o.at(1) : limits ? o.at(2) : o.at(5));
        const std::string name = chan("i");
        Snapshot s(v);
        calm();
        Census before = take();
        std::string what;
        bool ok;
        int64_t failed = 0;
        std::vector<int> fill;
        rlimit old;
        if (o.k == "fault") {
            phase(strf("initialise while mask %d fails from call %lld, %lld times, errno %d", (int)o.at(0), (long long)o.at(1), (long long)o.at(2), (int)o.at(3)));
            vpw::failAt((int)o.at(0), o.at(1), o.at(2), (int)o.at(3));
            ok = v.init(name, cap, size);
            failed = vpw::failedCalls();
            what = strf("%s failed with errno %d (call %lld of that kind, %lld failures)", vpw::lastFailed(), (int)o.at(3), (long long)o.at(1), (long long)failed);
            // a retry while the refusal lasts
            if (!ok && failed && o.at(6) == 1 && o.at(2) > 1000) {
                if (v.init(name, cap, size)) fail("initialise succeeded although every resource of a kind is refused: " + what);
            }
            vpw::failOff();
        } else if (o.k == "limit") {
            phase("initialise while descriptors run out");
            getrlimit(RLIMIT_NOFILE, &old);
            rlimit l = old;
            l.rlim_cur = 200;
            setrlimit(RLIMIT_NOFILE, &l);
            for (;;) { int fd = open("/dev/null", O_RDONLY); if (fd < 0) break; fill.push_back(fd); }
            for (int64_t k = 0; k < o.at(0) && !fill.empty(); k++) { close(fill.back()); fill.pop_back(); }
            ok = v.init(name, cap, size);
            failed = ok ? 0 : 1;
            what = strf("there were only %lld descriptors", (long long)o.at(0));
            for (int fd : fill) close(fd);
            setrlimit(RLIMIT_NOFILE, &old);
        } else {
            phase("initialise");
            ok = v.init(name, cap, size);
        }
        if (!ok && !failed) fail("initialise failed although nothing was refused");
        if (failed) injected++;
        if (!ok) reported++;
        if (stale && !ok) {   // the remains may be gone now
            before.names = base.names = (int)shmNames(prefix()).size();
            for (auto& x : shmNames(prefix() + "i")) { (void)x; label("remains are still there"); }
        }
        afterInit(v, ok, s, before, what, name, cap, size, nb.get());
        if (nb) works(*nb, "of the neighbour after a failed initialisation", nullptr);
        if (ok) {
            if (failed) label("init succeeded in spite of a failure");
            if (!failed) works(v, "after an initialisation", nb.get());
            stale = false;
            v.uninit();
            bindAll(v);
            if (c.get("stale")) base.names = (nb ? 6 : 0);
        }
    }
    phase("the final initialisation");
    if (!v.init(chan("i"), 10, 1000)) fail("initialise failed although the resources are available again");
    works(v, "after the final initialisation", nb.get());
    phase("uninit");
    v.uninit();
    if (nb) nb->uninit();
    Census end = take();
    waitFor(3000, [&] { end = take(); return end.threads == 1 && end.names == 0; }, 500);
    if (end.threads != 1 || end.names != 0 || end.maps != 0) fail("at the end there are still " + text(end));
    metric("initialisations", (int64_t)c.ops.size() + 1);
    metric("failures injected", injected);
    if (reported) nontrivial();
}

struct Ctl { std::atomic<int> up, stop, want[4], have[4]; };
void runContact(const Case& c) {
    Ctl* S = shared<Ctl>();
    Proc other = Proc::start([&] {
        std::vector<std::unique_ptr<Veigar>> p;
        for (int i = 0; i < 4; i++) {
            p.emplace_back(new Veigar());
            p.back()->setTimeoutOfRWLock(20000);
            bindAll(*p.back());
            VP_CHECK(p.back()->init(chan("p") + (char)('0' + i), 10, 1000), "init of a peer failed");
        }
        S->up = 1;
        while (!S->stop.load()) {
            sleepUs(300);
            for (int i = 0; i < 4; i++) if (S->want[i].load() != S->have[i].load()) {
                p[(size_t)i]->uninit();
                bindAll(*p[(size_t)i]);
                VP_CHECK(p[(size_t)i]->init(chan("p") + (char)('0' + i), 10, 1000), "a restart of a peer failed");
                S->have[i]++;
            }
        }
        for (auto& x : p) x->uninit();
    });
    if (!waitFor(30000, [&] { return S->up.load() == 1; })) fail("the peers did not start");
    Census start = take();
    Veigar v;
    v.setTimeoutOfRWLock(20000);
    bindAll(v);
    VP_CHECK(v.init(chan("a"), 10, 1000), "init failed");
    int injected = 0, failedCalls = 0, calls = 0;
    int64_t counted = 0;
    auto call = [&](int64_t to, int64_t style, bool mayFail, const char* what) {
        const std::string ch = chan("p") + (char)('0' + to);
        const int64_t f0 = vpw::failedCalls();
        CallResult r;
        calls++;
        phase(strf("a call of style %lld to peer %lld %s", (long long)style, (long long)to, what));
        if (style == 0) r = v.syncCall(ch, 20000, "g", 41);
        else if (style == 1) {
            auto p = v.asyncCall(ch, 20000, "g", 41);
            if (p->second.wait_for(std::chrono::seconds(25)) != std::future_status::ready) fail(strf("a promise call %s was never completed", what));
            r = p->second.get();
            v.releaseCall(p->first);
        } else {
            struct St { std::atomic<int> n{0}; CallResult r; };
            auto st = std::make_shared<St>();
            v.asyncCall([st](const CallResult& x) {
                if (st->n.load()) { st->n++; return; }
                st->r.errCode = x.errCode;
                st->r.errorMessage = x.errorMessage;
                if (x.isSuccess() && x.obj.get().as<int>() != 42) fail("a wrong result in a callback");
                st->n++;
            }, ch, 20000, "g", 41);
            if (!waitFor(25000, [&] { return st->n.load() > 0; })) fail(strf("a callback call %s was never completed", what));
            r.errCode = st->r.errCode;
            r.errorMessage = st->r.errorMessage;
        }
        if (r.isSuccess()) {
            if (style != 2 && r.obj.get().as<int>() != 42) fail("a wrong result");
            return;
        }
        failedCalls++;
        if (r.errorMessage.empty()) fail("a failed call without an explanation");
        if (!mayFail || vpw::failedCalls() == f0) fail(strf("a call %s failed although nothing was refused during it: %s", what, describe(r).c_str()));
    };
    for (auto& o : c.ops) {
        if (o.k == "fault") {
            counted += vpw::failedCalls();
            vpw::failAt((int)o.at(0), o.at(1), o.at(2), (int)o.at(3));
        } else if (o.k == "call") {
            for (int64_t n = 0; n < o.at(2); n++) call(o.at(0), o.at(1), true, "while resources are refused");
        } else if (o.k == "restart") {
            const int64_t i = o.at(0);
            S->want[i]++;
            if (!waitFor(30000, [&] { return S->want[i].load() == S->have[i].load(); })) fail("a peer did not restart");
            for (int64_t j = 0; j < 4; j++) if (j != i && (j + calls) % 3 == 0) call(j, j % 3, true, "after another peer restarted");
        }
    }
    injected = (int)(counted + vpw::failedCalls());
    vpw::failOff();
    for (int round = 0; round < 2; round++)
        for (int64_t i = 0; i < 4; i++) call(i, (i + round) % 3, false, "after the resources are available again");
    v.uninit();
    Census end = settle(start);
    if (!(end == start)) fail("left behind by an instance whose contacts failed: before " + text(start) + "; after " + text(end));
    S->stop = 1;
    int st = other.wait(30000);
    if (st != 0) { if (st == -1000) fail("the peers did not end"); _exit(st < 0 ? 1 : st); }
    metric("calls", calls);
    metric("failures injected", injected);
    metric("calls that failed", failedCalls);
    if (injected && failedCalls) nontrivial();
}

int64_t addressSpace() {
    FILE* f = fopen("/proc/self/statm", "r");
    long n = 0;
    if (f) { if (fscanf(f, "%ld", &n) != 1) n = 0; fclose(f); }
    return (int64_t)n * sysconf(_SC_PAGESIZE);
}
void runMemory(const Case& c) {
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_TRIM_THRESHOLD, 256 << 20);
    mallopt(M_MMAP_THRESHOLD, 200 << 10);
    {   // a heap with room for everything that is small
        std::vector<void*> b;
        for (int i = 0; i < 200; i++) b.push_back(malloc(100 << 10));
        for (void* p : b) memset(p, 1, 100 << 10);
        for (void* p : b) free(p);
    }
    Veigar v;
    v.setTimeoutOfRWLock(20000);
    bindAll(v);
    Snapshot s(v);
    Census before = take();
    bool reported = false;
    for (auto& o : c.ops) {
        if (o.k != "memory") continue;
        const int64_t size = o.at(1);
        const int64_t all = 2 * (size + 4096) + 12 * (8 << 20) + 6 * size + (8 << 20);
        // -1: enough for the queues, the threads and three of the six buffers of the size of a message
        const int64_t room = o.at(0) < 0 ? 5 * (size + 4096) + 12 * ((8 << 20) + 4096) + (20 << 20) : all * o.at(0) / 200;
        rlimit old, l;
        getrlimit(RLIMIT_AS, &old);
        l = old;
        l.rlim_cur = (rlim_t)(addressSpace() + room);
        phase(strf("initialise with %lld bytes of address space", (long long)room));
        if (setrlimit(RLIMIT_AS, &l) != 0) discard("no limit of the address space");
        bool ok = v.init(chan("i"), 1, (uint32_t)size);
        sleepUs(60000);   // the threads prepare themselves
        setrlimit(RLIMIT_AS, &old);
        std::string what = strf("there were only %lld bytes of address space", (long long)room);
        if (!ok || o.at(0) < 0) reported = true;
        afterInit(v, ok, s, before, what, chan("i"), 1, (uint32_t)size, nullptr);
        if (ok) { v.uninit(); bindAll(v); settle(before); s = Snapshot(v); }
    }
    if (!v.init(chan("i"), 4, 1000)) fail("initialise failed although memory is available again");
    works(v, "after memory is available again", nullptr);
    v.uninit();
    metric("limits of the address space");
    if (reported) nontrivial();
}
}  // namespace

void vpRun(const Case& c) {
    switch (c.get("mode")) {
        case 1: runContact(c); break;
        case 3: runMemory(c); break;
        default: runInit(c); break;
    }
}
