// C04: a message queue is a bounded FIFO of byte strings (list model, several handles, exact buffers under ASan).
#include "vp.h"
#include "message_queue.h"
#include <deque>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string.h>
using namespace vp;
using veigar::MessageQueue;

void vpInfo(Info& i) {
    i.id = "C04";
    i.batch = 40;
    i.rule = "A case is a queue configuration (capacity 1..48, expected size 1..600; rarely more than 2 GB in total) and 1..300 operations (push with lengths chosen "
             "relative to the current free space: exact fit, one over, total, expected, small, zero, null; pop with exact, larger, too small or null buffer; count; space query; "
             "reopen of a handle; drain) through 1..4 handles. Non-trivial: at least 3 messages were popped and the data area wrapped/compacted "
             "(a push was accepted that did not fit behind the stored messages) or a full/too-small rejection happened with messages stored.";
}

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    bool big = r.chance(1, 600);
    if (big) {
        c.cfg["cap"] = r.range(2, 4);
        c.cfg["size"] = r.range((int64_t)1 << 29, ((int64_t)1 << 29) + 4096) * (c.cfg["cap"] == 4 ? 1 : 2) + 7;
    } else {
        int64_t caps[] = {1, 2, 3, r.range(1, 8), r.range(1, 48)};
        c.cfg["cap"] = caps[r.below(5)];
        int64_t sizes[] = {1, 8, r.range(1, 20), r.range(1, 120), r.range(1, 600)};
        c.cfg["size"] = sizes[r.below(5)];
    }
    c.cfg["handles"] = r.range(1, 4);
    int64_t n = r.chance(1, 10) ? r.range(50, thorough ? 800 : 300) : r.range(1, 60);
    if (big) n = r.range(2, 12);
    // a bias per case: fill level
    int pushBias = (int)r.range(2, 9);
    for (int64_t i = 0; i < n; i++) {
        int64_t h = r.below(c.cfg["handles"]);
        if (r.chance(pushBias, 12)) {
            int kind = big ? (r.chance(1, 6) ? 4 : 0) : r.weighted({30, 14, 8, 2, 3, 8, 4, 2, 1, 12});
            c.ops.push_back(Op("push", {h, kind, r.small(40), r.range(1, 1000)}));
        } else {
            switch (r.weighted({40, 6, 6, 3, 3})) {
                case 0: c.ops.push_back(Op("pop", {h, r.weighted({10, 4, 3, 1}), r.range(1, 64)})); break;
                case 1: c.ops.push_back(Op("num", {h})); break;
                case 2: c.ops.push_back(Op("check", {h, r.weighted({3, 3, 3, 1, 1, 2}), r.small(64)})); break;
                case 3: c.ops.push_back(Op("reopen", {h})); break;
                default: c.ops.push_back(Op("drain", {h, r.range(1, 12)})); break;
            }
        }
    }
    return c;
}

bool vpValid(const Case& c) { return c.get("cap") >= 1 && c.get("size") >= 1 && c.get("handles") >= 1; }

static std::string content(int64_t seq, int64_t len) {
    std::string s((size_t)len, 0);
    uint64_t x = mix64((uint64_t)seq * 7919 + 13);
    for (size_t i = 0; i < s.size(); i++) {
        if (i % 8 == 0) x = mix64(x);
        s[i] = (char)(x >> (8 * (i % 8)));
    }
    return s;
}

void vpRun(const Case& c) {
    const int64_t cap = c.get("cap"), size = c.get("size"), total = cap * size;
    const bool big = total > 50000000;
    int lockFd = -1;
    if (big) {
        lockFd = open("/tmp/vp_c04_big.lock", O_CREAT | O_RDWR | O_CLOEXEC, 0600);
        flock(lockFd, LOCK_EX);
    }
    const int nh = (int)c.get("handles");
    std::string name = prefix() + "q";
    std::vector<std::unique_ptr<MessageQueue>> h;
    h.emplace_back(new MessageQueue((int32_t)cap, (int32_t)size));
    VP_CHECK(h[0]->create(name), "create(cap=%lld,size=%lld) failed", (long long)cap, (long long)size);
    for (int i = 1; i < nh; i++) {
        h.emplace_back(new MessageQueue((int32_t)cap, (int32_t)size));
        VP_CHECK(h[i]->open(name), "open of an existing queue failed");
    }
    // our own view of the pages, to see writes behind the end of the object
    int fd = shm_open(("/" + name + "_shm").c_str(), O_RDWR, 0);
    struct stat st;
    uint8_t* tail = nullptr;
    size_t tailLen = 0;
    if (fd >= 0 && fstat(fd, &st) == 0 && !big) {
        size_t pg = 4096, full = ((size_t)st.st_size + pg - 1) / pg * pg;
        uint8_t* m = (uint8_t*)mmap(nullptr, full, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) { tail = m + st.st_size; tailLen = full - (size_t)st.st_size; }
    }
    std::deque<std::string> model;
    int64_t stored = 0, seq = 0, popped = 0, front = 0;  // front: only used to decide what is non-trivial
    bool wrapped = false, rejected = false;
    for (size_t oi = 0; oi < c.ops.size(); oi++) {
        const Op& o = c.ops[oi];
        MessageQueue& q = *h[(size_t)(((o.at(0) % nh) + nh) % nh)];
        int64_t freeB = total - stored;
        VP_CHECK(q.processRWLock(20000), "op %zu: lock not available although nobody holds it", oi);
        if (o.k == "push") {
            int64_t len;
            switch (o.at(1)) {
                case 1: len = freeB; break;
                case 2: len = freeB + 1; break;
                case 3: len = total; break;
                case 4: len = total + 1; break;
                case 5: len = size; break;
                case 6: len = size + 1; break;
                case 7: len = 0; break;
                case 8: len = -o.at(2); break;
                case 9: len = 1 + o.at(2) % std::max<int64_t>(1, std::min<int64_t>(size, 300)); break;
                default: len = 1 + o.at(2);
            }
            if (big && len > 100000 && len <= total) len = 100000;
            bool nul = o.at(3) % 97 == 0;
            bool ok = !nul && len >= 1 && (int64_t)model.size() < cap && len <= freeB;
            std::string data;
            if (len > 0 && len <= 2000000) data = content(seq, len);
            if (len > 2000000) { data = content(seq, 16); }
            // exact heap copy, so that reading past it is seen
            char* p = data.empty() ? (char*)malloc(1) : (char*)malloc(data.size());
            memcpy(p, data.data(), data.size());
            bool r = q.pushBack(nul ? nullptr : p, len);
            free(p);
            VP_CHECK(r == ok, "op %zu: push of %lld bytes (stored %zu messages, %lld of %lld bytes) returned %d, expected %d", oi, (long long)len, model.size(),
                     (long long)stored, (long long)total, r, ok);
            if (ok) {
                if (front + stored + len > total) { wrapped = true; front = 0; }
                model.push_back(data);
                stored += len;
                seq++;
            } else if (!model.empty()) rejected = true;
        } else if (o.k == "pop" || o.k == "drain") {
            int64_t times = o.k == "drain" ? o.at(1) : 1;
            int mode = o.k == "drain" ? 0 : (int)o.at(1);
            for (int64_t t = 0; t < times; t++) {
                int64_t need = model.empty() ? 0 : (int64_t)model.front().size();
                int64_t bs = need;
                if (mode == 1) bs = need + o.at(2);
                if (mode == 2) bs = need > 0 ? (o.at(2) % need) : 0;
                bool ok = !model.empty() && mode != 2 && mode != 3;
                char* b = (char*)malloc(bs > 0 ? (size_t)bs : 1);
                memset(b, 0x5a, bs > 0 ? (size_t)bs : 1);
                int64_t written = -77;
                bool r = q.popFront(mode == 3 ? nullptr : b, bs, written);
                VP_CHECK(r == ok, "op %zu: pop with %zu messages stored, buffer %lld for %lld bytes returned %d", oi, model.size(), (long long)bs, (long long)need, r);
                VP_CHECK(written == need, "op %zu: pop reported %lld bytes, the front message has %lld", oi, (long long)written, (long long)need);
                if (ok) {
                    VP_CHECK(memcmp(b, model.front().data(), (size_t)need) == 0, "op %zu: pop returned other bytes than were pushed: got %s, expected %s", oi,
                             hex(std::string(b, (size_t)need)).c_str(), hex(model.front()).c_str());
                    for (int64_t i = need; i < bs; i++) VP_CHECK(b[i] == 0x5a, "op %zu: pop wrote behind the message in the caller's buffer", oi);
                    model.pop_front();
                    stored -= need;
                    front += need;
                    popped++;
                } else {
                    for (int64_t i = 0; i < bs; i++) VP_CHECK(b[i] == 0x5a, "op %zu: a rejected pop wrote to the caller's buffer", oi);
                    if (!model.empty()) rejected = true;
                }
                free(b);
            }
        } else if (o.k == "check") {
            int64_t need;
            switch (o.at(1)) {
                case 0: need = freeB; break;
                case 1: need = freeB + 1; break;
                case 2: need = 1 + o.at(2); break;
                case 3: need = total; break;
                case 4: need = total + 1 + o.at(2); break;
                default: need = freeB - o.at(2);
            }
            if (need >= 1) {
                bool w = false;
                bool r = q.checkSpaceSufficient(need, w);
                bool ok = (int64_t)model.size() < cap && need <= freeB;
                VP_CHECK(r == ok, "op %zu: space query for %lld bytes (stored %zu messages, %lld of %lld bytes) said %d, a push would give %d", oi, (long long)need,
                         model.size(), (long long)stored, (long long)total, r, ok);
                if (!ok) VP_CHECK(w == (need <= total), "op %zu: space query for %lld bytes of %lld says waiting is %s", oi, (long long)need, (long long)total, w ? "useful" : "useless");
            }
        } else if (o.k == "reopen") {
            size_t i = (size_t)(((o.at(0) % nh) + nh) % nh);
            q.processRWUnlock();
            if (i > 0) {
                if (o.at(0) % 2) h[i]->close();
                else h[i].reset(new MessageQueue((int32_t)cap, (int32_t)size));
                VP_CHECK(h[i]->open(name), "op %zu: reopening the queue failed", oi);
            }
            VP_CHECK(h[i]->processRWLock(20000), "op %zu: lock not available after reopening", oi);
            VP_CHECK(h[i]->msgNumber() == (int64_t)model.size(), "op %zu: %lld messages after reopening, expected %zu", oi, (long long)h[i]->msgNumber(), model.size());
            h[i]->processRWUnlock();
            continue;
        }
        int64_t n = q.msgNumber();
        VP_CHECK(n == (int64_t)model.size(), "op %zu (%s): queue reports %lld messages, expected %zu", oi, o.k.c_str(), (long long)n, model.size());
        q.processRWUnlock();
        for (size_t i = 0; i < tailLen; i++) VP_CHECK(tail[i] == 0, "op %zu: byte %zu behind the end of the shared region was written", oi, i);
    }
    // the rest must come out in order through any handle
    while (!model.empty()) {
        MessageQueue& q = *h[model.size() % (size_t)nh];
        std::string b(model.front().size() + 3, 'x');
        int64_t w = 0;
        VP_CHECK(q.processRWLock(20000), "final: lock not available");
        VP_CHECK(q.popFront(&b[0], (int64_t)b.size(), w) && w == (int64_t)model.front().size() && memcmp(b.data(), model.front().data(), (size_t)w) == 0,
                 "final: the remaining messages are not what was pushed");
        q.processRWUnlock();
        model.pop_front();
        popped++;
    }
    if (wrapped) label("compacted");
    if (rejected) label("rejected with messages stored");
    if (nh > 1) label("several handles");
    if (big) label("more than 2 GB");
    if (popped >= 3 && (wrapped || rejected)) nontrivial();
    metric("pops", popped);
    if (tail) munmap(tail + tailLen - ((size_t)st.st_size + tailLen), (size_t)st.st_size + tailLen);
    if (fd >= 0) close(fd);
    for (size_t i = 1; i < h.size(); i++) h[i]->close();
    h[0]->close();
    if (lockFd >= 0) close(lockFd);
}
