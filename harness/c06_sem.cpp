// C06: timed semaphore waits honour their timeout, units are conserved, existence queries have no side effect.
#include "vp.h"
#include <semaphore.h>
#include "semaphore.h"
#include <atomic>
#include <thread>
#include <memory>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace vp;

using veigar::Semaphore;

void vpInfo(Info& i) {
    i.id = "C06";
    i.watchdogMs = 30000;
    i.rule = "A case is 1..25 operations on up to 5 handles of up to 2 named semaphores (open with a value, close, release, timed waits of 0..1500 ms started at any sub-second phase, "
             "waits released by another thread with timeouts up to the largest number, infinite waits, storms of threads and processes waiting and releasing, existence queries of existing, missing and impossible names), "
             "optionally under a periodic signal without SA_RESTART. Non-trivial: at least one wait had to block for 2 ms or more or a storm ran.";
}

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["signals"] = r.chance(1, 2) ? r.range(300, 9000) : 0;  // period in us
    int64_t n = r.range(1, 25);
    int64_t budget = thorough ? 6000 : 2500;  // total ms of waiting
    c.ops.push_back(Op("open", {0, 0, r.small(5)}));
    for (int64_t i = 0; i < n; i++) {
        int64_t h = r.below(5), nm = r.below(2);
        switch (r.weighted({5, 2, 7, 12, 3, 2, 4, 2, 2, 2, 2})) {
            case 0: c.ops.push_back(Op("open", {h, nm, r.small(6)})); break;
            case 1: c.ops.push_back(Op("close", {h})); break;
            case 2: c.ops.push_back(Op("release", {h, r.range(1, 3)})); break;
            case 3: {
                int64_t ms = r.chance(1, 4) ? 0 : (r.chance(1, 5) ? r.range(900, 1500) : r.range(1, 350));
                if (budget <= 0) ms = r.range(0, 3);
                budget -= ms;
                c.ops.push_back(Op("wait", {h, ms}));
                break;
            }
            case 4: {
                int64_t d = r.range(1, 120);
                if (budget <= 0) d = 1;
                budget -= d;
                c.ops.push_back(Op("waitrel", {h, d, r.below(4), r.chance(1, 2) ? r.below(9) : (int64_t)(r.next() >> (1 + r.below(40)))}));
                break;
            }
            case 5: c.ops.push_back(Op("storm", {h, r.range(1, 4), r.range(1, 30), r.below(2), r.range(0, 4)})); break;
            case 6: c.ops.push_back(Op("exist", {nm})); break;
            case 7: c.ops.push_back(Op("existbad", {r.below(4)})); break;
            case 8: {
                int64_t ms = r.range(1, 999);
                if (budget > 600) {
                    budget -= 500;
                    c.ops.push_back(Op("phase", {ms}));
                }
                break;
            }
            case 9: c.ops.push_back(Op("openbad", {h, r.below(3)})); break;
            case 10: c.ops.push_back(Op("waitinvalid", {r.range(0, 100)})); break;
        }
    }
    return c;
}

static void onSig(int) {}

static bool rawExists(const std::string& name) {
    sem_t* s = sem_open(name.c_str(), 0);
    if (s == SEM_FAILED) return false;
    sem_close(s);
    return true;
}
static int rawValue(const std::string& name) {
    sem_t* s = sem_open(name.c_str(), 0);
    if (s == SEM_FAILED) return -1;
    int v = -1;
    sem_getvalue(s, &v);
    sem_close(s);
    return v;
}

// runs fn while a timer thread sends us signals
struct Signals {
    std::atomic<bool> stop{false};
    std::thread t;
    Signals(int64_t periodUs, pthread_t target) {
        if (periodUs <= 0) return;
        t = std::thread([=] {
            while (!stop) {
                sleepUs(periodUs);
                if (!stop) pthread_kill(target, SIGUSR1);
            }
        });
    }
    ~Signals() {
        stop = true;
        if (t.joinable()) t.join();
    }
};

static void checkFailedWait(size_t oi, int64_t ms, int64_t elapsedUs, bool signals) {
    if (elapsedUs < (ms - 2) * 1000)
        fail(strf("op %zu: a wait of %lld ms on an empty semaphore failed after only %lld us%s", oi, (long long)ms, (long long)elapsedUs, signals ? " (signals were delivered)" : ""));
    if (elapsedUs > (ms + 450) * 1000)
        failTiming(strf("op %zu: a wait of %lld ms on an empty semaphore took %lld ms", oi, (long long)ms, (long long)elapsedUs / 1000));
}

void vpRun(const Case& c) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onSig;
    sigaction(SIGUSR1, &sa, nullptr);
    const int64_t sigPeriod = c.get("signals");
    std::string names[2] = {prefix() + "s0", prefix() + "s1"};
    std::unique_ptr<Semaphore> h[5];
    int bound[5];
    bool valid[5] = {};
    for (int i = 0; i < 5; i++) h[i].reset(new Semaphore());
    int64_t value[2] = {0, 0};
    bool exists[2] = {false, false};
    int users[2] = {0, 0};
    bool blocked = false, storm = false;
    for (size_t oi = 0; oi < c.ops.size(); oi++) {
        const Op& o = c.ops[oi];
        int hi = (int)(((o.at(0) % 5) + 5) % 5);
        Semaphore& s = *h[hi];
        phase(strf("op %zu %s", oi, o.k.c_str()));
        if (o.k == "open") {
            if (valid[hi]) { s.close(); VP_CHECK(!s.valid(), "op %zu: valid after close", oi); users[bound[hi]]--; valid[hi] = false; }
            int nm = (int)(((o.at(1) % 2) + 2) % 2);
            int v = (int)(o.at(2) < 0 ? 0 : o.at(2));
            bool was = rawExists(names[nm]);
            int before = was ? rawValue(names[nm]) : v;
            VP_CHECK(s.open(names[nm], v), "op %zu: opening a semaphore failed", oi);
            VP_CHECK(s.valid(), "op %zu: not valid after a successful open", oi);
            VP_CHECK(rawValue(names[nm]) == before, "op %zu: value %d after open(value=%d) of %s semaphore, expected %d", oi, rawValue(names[nm]), v, was ? "an existing" : "a new", before);
            if (!was) value[nm] = v;
            exists[nm] = true;
            bound[hi] = nm;
            valid[hi] = true;
            users[nm]++;
        } else if (o.k == "close") {
            s.close();
            if (valid[hi]) users[bound[hi]]--;
            valid[hi] = false;
            VP_CHECK(!s.valid(), "op %zu: valid after close", oi);
            s.close();
        } else if (o.k == "openbad") {
            if (valid[hi]) continue;
            bool r = true;
            if (o.at(1) == 0) r = s.open("");
            else if (o.at(1) == 1) r = s.open(prefix() + "bad/name", 1);
            else r = s.open(prefix() + std::string(300, 'n'), 1);
            VP_CHECK(!r && !s.valid(), "op %zu: opening an impossible name succeeded", oi);
        } else if (o.k == "waitinvalid") {
            Semaphore x;
            int64_t t0 = nowUs();
            VP_CHECK(!x.wait((int64_t)o.at(0)), "op %zu: wait on a closed semaphore succeeded", oi);
            x.release();
            x.close();
            (void)t0;
        } else if (o.k == "phase") {
            timespec ts;
            clock_gettime(CLOCK_REALTIME, &ts);
            int64_t us = ts.tv_nsec / 1000, want = (((o.at(0) % 1000) + 1000) % 1000) * 1000;
            sleepUs(((want - us) % 1000000 + 1000000) % 1000000);
        } else if (o.k == "exist") {
            int nm = (int)(((o.at(0) % 2) + 2) % 2);
            if (exists[nm] && users[nm] == 0) continue;  // life after the last close is not specified
            bool before = rawExists(names[nm]);
            int vb = before ? rawValue(names[nm]) : 0;
            bool r = Semaphore::IsExist(names[nm]);
            VP_CHECK(r == before, "op %zu: existence query says %d for a semaphore that %s", oi, r, before ? "exists" : "does not exist");
            VP_CHECK(rawExists(names[nm]) == before, "op %zu: the existence query %s the semaphore", oi, before ? "removed" : "created");
            if (before) VP_CHECK(rawValue(names[nm]) == vb, "op %zu: the existence query changed the value", oi);
            bool r2 = Semaphore::IsExist(names[nm]);
            VP_CHECK(r2 == before, "op %zu: a second existence query changed its answer", oi);
        } else if (o.k == "existbad") {
            std::string n = o.at(0) == 0 ? std::string() : o.at(0) == 1 ? prefix() + "no/such" : o.at(0) == 2 ? prefix() + std::string(300, 'n') : prefix() + "missing";
            VP_CHECK(!Semaphore::IsExist(n), "op %zu: existence query says yes for the name '%s'", oi, n.substr(0, 60).c_str());
            VP_CHECK(shmNames(prefix() + "missing").empty(), "op %zu: the existence query left an object behind", oi);
        }
        if (!valid[hi]) continue;
        const int nm = bound[hi];
        if (o.k == "release") {
            for (int64_t i = 0; i < o.at(1) && i < 100; i++) { s.release(); value[nm]++; }
        } else if (o.k == "wait") {
            int64_t ms = o.at(1) < 0 ? 0 : o.at(1) % 3000;
            Signals sg(sigPeriod, pthread_self());
            int64_t t0 = nowUs();
            bool r = s.wait(ms);
            int64_t el = nowUs() - t0;
            if (value[nm] > 0) {
                VP_CHECK(r, "op %zu: a wait of %lld ms failed (after %lld us) although %lld units are available", oi, (long long)ms, (long long)el, (long long)value[nm]);
                value[nm]--;
            } else {
                VP_CHECK(!r, "op %zu: a wait succeeded although no unit is available", oi);
                checkFailedWait(oi, ms, el, sigPeriod > 0);
                if (ms >= 2) blocked = true;
            }
        } else if (o.k == "waitrel") {
            // drain, then wait while another thread releases after d ms
            while (value[nm] > 0) { VP_CHECK(s.wait((int64_t)0), "op %zu: draining failed with %lld units left", oi, (long long)value[nm]); value[nm]--; }
            int64_t d = o.at(1) < 0 ? 0 : o.at(1) % 1000;
            std::thread t([&] { sleepUs(d * 1000); s.release(); });
            bool r;
            int64_t t0 = nowUs(), el, tmo = 20000;
            {
                Signals sg(sigPeriod, pthread_self());
                static const int64_t huge[] = {2147483647ll, 2147483648ll, 2147483647000ll, 3000000000ll, 4294967295ll, 4294967296ll, 4294967297000ll, 9223372036854775807ll, 9223372036854775000ll};
                tmo = std::max<int64_t>(d + 20000, o.at(3) < 9 ? huge[o.at(3) < 0 ? 0 : o.at(3)] : o.at(3));
                if (o.at(2) % 4 == 0) r = s.wait(d + 20000);
                else if (o.at(2) % 4 == 1) r = s.wait((int64_t)-1);
                else if (o.at(2) % 4 == 3) r = s.wait(tmo);
                else { s.wait(); r = true; }
                el = nowUs() - t0;
            }
            t.join();
            VP_CHECK(r, "op %zu: a wait of %s failed after %lld us although a unit was released after %lld ms", oi, o.at(2) % 4 == 0 ? "20 s" : o.at(2) % 4 == 3 ? strf("%lld ms", (long long)tmo).c_str() : "unlimited time", (long long)el, (long long)d);
            VP_CHECK(el >= d * 1000 - 2000, "op %zu: a wait on an empty semaphore succeeded %lld us after it began, the unit was released after %lld ms", oi, (long long)el, (long long)d);
            if (el > (d + 600) * 1000) failTiming(strf("op %zu: a waiter was woken %lld ms after the release", oi, (long long)(el / 1000 - d)));
            blocked = true;
        } else if (o.k == "storm") {
            // w waiters (threads, and a process) wait with short timeouts, releases come from several threads
            int64_t waiters = o.at(1) % 8, each = o.at(2) % 100, byProc = o.at(3) & 1, tmo = o.at(4) % 20;
            if (waiters < 1 || each < 0 || tmo < 0) continue;
            int pfd[2];
            if (pipe(pfd) != 0) continue;
            pid_t pid = 0;
            if (byProc) {
                pid = fork();
                if (pid == 0) {
                    Semaphore x;
                    int64_t got = -1;
                    if (x.open(names[nm])) {
                        got = 0;
                        for (int64_t i = 0; i < each; i++) if (x.wait(tmo)) got++;
                        x.close();
                    }
                    (void)!write(pfd[1], &got, sizeof got);
                    _exit(0);
                }
            }
            std::atomic<int64_t> got{0}, rel{0};
            std::vector<std::thread> th;
            for (int64_t w = 0; w < waiters; w++) {
                th.emplace_back([&, w] {
                    Signals sg(sigPeriod, pthread_self());
                    for (int64_t i = 0; i < each; i++) if (s.wait(tmo)) got++;
                });
                th.emplace_back([&, w] {
                    Rng r(caseSeed() + (uint64_t)w);
                    for (int64_t i = 0; i < each; i++) { if (r.chance(1, 3)) sleepUs(r.small(300)); if (r.chance(2, 3)) { s.release(); rel++; } }
                });
            }
            for (auto& t : th) t.join();
            int64_t pgot = 0;
            if (byProc) {
                VP_CHECK(read(pfd[0], &pgot, sizeof pgot) == (ssize_t)sizeof pgot && pgot >= 0, "op %zu: another process could not open the semaphore", oi);
                waitpid(pid, nullptr, 0);
            }
            close(pfd[0]);
            close(pfd[1]);
            int64_t expect = value[nm] + rel - got - pgot;
            VP_CHECK(expect >= 0, "op %zu: %lld waits succeeded but only %lld units existed", oi, (long long)(got + pgot), (long long)(value[nm] + rel));
            VP_CHECK(rawValue(names[nm]) == expect, "op %zu: %lld units after a storm of waits and releases, expected %lld", oi, (long long)rawValue(names[nm]), (long long)expect);
            value[nm] = expect;
            storm = true;
        }
        int rv = rawValue(names[nm]);
        VP_CHECK(rv == value[nm], "op %zu (%s): the semaphore holds %d units, expected %lld", oi, o.k.c_str(), rv, (long long)value[nm]);
    }
    for (int i = 0; i < 5; i++) h[i]->close();
    for (auto& n : names) sem_unlink(n.c_str());
    if (blocked || storm) nontrivial();
    if (blocked) label("blocking wait");
    if (storm) label("storm");
    if (sigPeriod) label("signals");
}
