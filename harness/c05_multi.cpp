// C05: processes sharing a queue never lose, duplicate or mix messages.
#include "rpc.h"
#include "raw.h"
#include "wrap.h"
#include <string.h>
#include <sys/time.h>
using namespace vp;
using namespace rpc;

void vpInfo(Info& i) {
    i.id = "C05";
    i.watchdogMs = 60000;
    i.rule = "A case is 1..4 processes with 1..4 threads each that push (1..120 messages per producer, sizes from 24 bytes to the whole queue) and pop through their own or a shared handle of one small queue, with random pauses at "
             "synchronisation points, short lock timeouts and interrupting signals. Every message names its producer and number; pops are numbered inside the lock. Non-trivial: at least 2 participants contended and a push met a full queue or a pop an empty one.";
}
Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    c.cfg["procs"] = r.range(1, 4);
    c.cfg["producers"] = r.range(1, 4);   // per case, spread over the processes
    c.cfg["consumers"] = r.range(1, 4);
    c.cfg["cap"] = r.chance(1, 4) ? 1 : r.chance(1, 2) ? r.range(2, 6) : r.range(7, 60);
    c.cfg["size"] = r.pick(std::vector<int64_t>{24, 32, 57, 100, 1000, 4096});
    c.cfg["n"] = r.range(1, thorough ? 300 : 120);
    c.cfg["shared"] = r.chance(1, 3);      // the threads of a process share one handle
    c.cfg["short"] = r.chance(1, 4);       // lock timeouts of 0..3 ms, retried
    c.cfg["signals"] = r.chance(1, 4);
    c.cfg["perturb"] = r.chance(2, 3) ? r.range(10, 300) : 0;
    c.cfg["maxus"] = r.range(5, 400);
    c.cfg["sizes"] = r.below(4);
    c.cfg["drain"] = r.chance(1, 4);       // the consumers start when the producers are stuck or finished
    return c;
}
bool vpValid(const Case& c) { return c.get("procs") >= 1 && c.get("producers") >= 1 && c.get("consumers") >= 1 && c.get("cap") >= 1 && c.get("size") >= 24 && c.get("n") >= 1; }

namespace {
const int kMax = 4096;
struct Sh {
    std::atomic<int> inside, maxInside, violations;
    std::atomic<int> accepted, popped, producersDone, ready, full, empty, lockTimeouts, go;
    std::atomic<int> npop;
    int who[kMax], seq[kMax];   // in pop order, written inside the lock
};
Sh* S;
struct Head { uint32_t who, seq; uint64_t len, sum; };

struct Ctx { const Case* c; std::string path; };

bool lock(raw::Queue& q, Rng& r, bool shortT) {
    uint32_t ms = shortT ? (uint32_t)r.below(4) : 50000;
    if (!q.q->processRWLock(ms)) {
        if (!shortT) fail("the lock was not obtained within 50 s");
        S->lockTimeouts++;
        return false;
    }
    int n = ++S->inside;
    if (n != 1) fail(strf("%d participants are inside the lock", n));
    return true;
}
void unlock(raw::Queue& q) {
    --S->inside;
    q.q->processRWUnlock();
}
void produce(const Case& c, raw::Queue& q, int who) {
    Rng r(caseSeed() * 31 + (uint64_t)who);
    const int64_t total = c.get("cap") * c.get("size"), n = c.get("n");
    for (int64_t i = 0; i < n; i++) {
        int64_t sz = 24;
        switch (c.get("sizes")) {
            case 0: sz = c.get("size"); break;
            case 1: sz = r.range(24, c.get("size")); break;
            case 2: sz = r.chance(1, 6) ? r.range(24, total) : r.range(24, std::max<int64_t>(24, c.get("size"))); break;
            default: sz = r.pick(std::vector<int64_t>{24, total, c.get("size"), c.get("size") + 1, total / 2 + 1}); break;
        }
        sz = std::max<int64_t>(24, std::min(sz, total));
        std::string m((size_t)sz, 0), body = payload((uint64_t)who * 100000 + (uint64_t)i, sz - 24);
        Head h = {(uint32_t)who, (uint32_t)i, (uint64_t)sz, fnv(body)};
        memcpy(&m[0], &h, 24);
        if (!body.empty()) memcpy(&m[24], body.data(), body.size());
        for (;;) {
            if (!lock(q, r, c.get("short"))) continue;
            bool waitable = false, ok = q.q->checkSpaceSufficient(sz, waitable);
            bool pushed = false;
            if (ok) {
                pushed = q.q->pushBack(m.data(), sz);
                if (pushed) S->accepted++;
                if (!pushed) fail("there is space but the push is refused");
                if (r.chance(1, 2)) { q.q->notifyRead(); unlock(q); }
                else { unlock(q); q.q->notifyRead(); }
                break;
            }
            if (!waitable) fail("a message that fits the empty queue is called too large");
            if (q.q->pushBack(m.data(), sz)) fail("there is no space but the push is accepted");
            S->full++;
            unlock(q);
            sleepUs(r.range(50, 600));
        }
    }
    S->producersDone++;
}
void consume(const Case& c, raw::Queue& q, int who) {
    Rng r(caseSeed() * 37 + 1000 + (uint64_t)who);
    const int total = (int)(c.get("producers") * c.get("n"));
    std::string buf((size_t)(c.get("cap") * c.get("size")), 0);
    if (c.get("drain")) waitFor(3000, [&] { return S->producersDone.load() >= (int)c.get("producers") || S->full.load() > 3; });
    while (S->popped.load() < total) {
        if (!q.q->waitForRead(20)) {
            S->empty++;
            continue;
        }
        // this participant was told about a message: it takes one
        while (!lock(q, r, c.get("short"))) {}
        int64_t left = q.q->msgNumber(), w = 0;
        if (left <= 0) fail("a reader was woken but the queue holds no message");
        if (r.chance(1, 5)) {
            int64_t w2 = 0;
            if (q.q->popFront(&buf[0], 3, w2) || w2 < 24) fail("a pop with a small buffer reports the wrong size");
            if (q.q->msgNumber() != left) fail("a pop with a small buffer changed the queue");
        }
        if (!q.q->popFront(&buf[0], (int64_t)buf.size(), w)) fail(strf("the queue holds %lld messages but the pop fails", (long long)left));
        int i = S->npop++;
        Head h;
        if (w < 24) fail(strf("a popped message has %lld bytes", (long long)w));
        memcpy(&h, &buf[0], 24);
        if (i < kMax) { S->who[i] = (int)h.who; S->seq[i] = (int)h.seq; }
        unlock(q);
        if (h.len != (uint64_t)w || fnv(buf.substr(24, (size_t)w - 24)) != h.sum || h.who >= (uint32_t)c.get("producers"))
            fail(strf("a popped message of %lld bytes does not have the bytes that were pushed (producer %u, number %u, length %llu)", (long long)w, h.who, h.seq, (unsigned long long)h.len));
        S->popped++;
    }
}
void runProcess(const Case& c, int proc) {
    const int procs = (int)c.get("procs");
    if (c.get("signals")) {
        struct sigaction sa = {};
        sa.sa_handler = [](int) {};
        sigaction(SIGALRM, &sa, nullptr);
        itimerval it = {{0, 1700}, {0, 1700}};
        setitimer(ITIMER_REAL, &it, nullptr);
    }
    if (c.get("perturb")) vpw::perturb(caseSeed() + (uint64_t)proc, (int)c.get("perturb"), (int)c.get("maxus"));
    raw::Queue sharedQ;
    if (c.get("shared")) VP_CHECK(sharedQ.open(prefix() + "q"), "a process cannot open the queue");
    std::vector<std::thread> th;
    std::vector<std::unique_ptr<raw::Queue>> qs;
    S->ready++;
    waitFor(20000, [&] { return S->ready.load() >= procs; }, 100);
    auto handle = [&]() -> raw::Queue* {
        if (c.get("shared")) return &sharedQ;
        qs.emplace_back(new raw::Queue());
        VP_CHECK(qs.back()->open(prefix() + "q"), "a participant cannot open the queue");
        return qs.back().get();
    };
    for (int i = 0; i < c.get("producers"); i++) if (i % procs == proc) { raw::Queue* q = handle(); th.emplace_back([&c, q, i] { produce(c, *q, i); }); }
    for (int i = 0; i < c.get("consumers"); i++) if ((i + 1) % procs == proc) { raw::Queue* q = handle(); th.emplace_back([&c, q, i] { consume(c, *q, i); }); }
    for (auto& t : th) t.join();
    itimerval off = {};
    setitimer(ITIMER_REAL, &off, nullptr);
    vpw::perturbOff();
    if (c.get("shared")) sharedQ.close();
    for (auto& q : qs) q->close();
}
}  // namespace

void vpRun(const Case& cc) {
    Case c = cc;
    if (c.get("producers") * c.get("n") > kMax) discard("too many messages");
    S = shared<Sh>();
    phase("setup");
    raw::Queue own;
    VP_CHECK(own.create(prefix() + "q", (int)c.get("cap"), (int)c.get("size")), "the queue cannot be created");
    std::vector<Proc> ps;
    for (int p = 1; p < c.get("procs"); p++) ps.push_back(Proc::start([&, p] { runProcess(c, p); }));
    phase("running");
    // a monitor: messages present, everything produced, nobody being woken
    std::atomic<bool> stop{false};
    const int total = (int)(c.get("producers") * c.get("n"));
    std::thread mon([&] {
        int last = -1;
        int64_t since = nowUs();
        while (!stop && S->popped.load() < total) {
            int now = S->popped.load() * 2 + S->accepted.load();
            if (now != last) { last = now; since = nowUs(); }
            if (nowUs() - since > 15000000) fail(strf("no progress for 15 s: %d of %d messages accepted, %d popped: a message or a wake-up was lost", S->accepted.load(), total, S->popped.load()));
            sleepUs(2000);
        }
    });
    runProcess(c, 0);
    for (auto& p : ps) {
        int st = p.wait(50000);
        if (st != 0) fail(strf("a participant ended with %d", st));
    }
    stop = true;
    mon.join();
    phase("checking");
    VP_CHECK(S->npop.load() == total && S->accepted.load() == total, "%d messages accepted, %d popped of %d", S->accepted.load(), S->npop.load(), total);
    VP_CHECK(own.number() == 0, "%lld messages are left", (long long)own.number());
    VP_CHECK(!own.q->waitForRead(0), "a wake-up is left although all messages were taken");
    std::map<int, int> next;
    for (int i = 0; i < total; i++) {
        VP_CHECK(S->seq[i] == next[S->who[i]], "the messages of producer %d come out in the wrong order: number %d instead of %d", S->who[i], S->seq[i], next[S->who[i]]);
        next[S->who[i]]++;
    }
    own.close();
    metric("messages", total);
    metric("full", S->full.load());
    metric("empty waits", S->empty.load());
    metric("lock timeouts", S->lockTimeouts.load());
    if (c.get("procs") > 1) label("several processes");
    if (S->full.load()) label("full queue");
    if (c.get("producers") + c.get("consumers") >= 2 && (S->full.load() || S->empty.load())) nontrivial();
}
