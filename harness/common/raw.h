// Raw access to the queues of a channel: a peer that speaks the wire format without the library's RPC classes.
#pragma once
#include "vp.h"
#include "msgref.h"
#include "message_queue.h"
#include <memory>
#include <string>

namespace raw {
using veigar::MessageQueue;
enum PushRes { PUSHED, REJECTED, FULLQ, NOLOCK };

struct Queue {
    std::shared_ptr<MessageQueue> q;
    bool create(const std::string& path, int cap, int size) {
        q = std::make_shared<MessageQueue>(cap, size);
        if (!q->create(path)) q.reset();
        return !!q;
    }
    bool open(const std::string& path) {
        q = std::make_shared<MessageQueue>(1, 1);
        if (!q->open(path)) q.reset();
        return !!q;
    }
    void close() { if (q) q->close(); q.reset(); }
    PushRes tryPush(const std::string& m, int lockMs = 20000) {
        if (!q->processRWLock((uint32_t)lockMs)) return NOLOCK;
        bool waitable = false;
        PushRes r = REJECTED;
        if (q->checkSpaceSufficient((int64_t)m.size(), waitable)) {
            if (q->pushBack(m.data(), (int64_t)m.size())) { q->notifyRead(); r = PUSHED; }
        } else if (waitable) r = FULLQ;
        q->processRWUnlock();
        return r;
    }
    // Retries while the queue is full.
    PushRes push(const std::string& m, int64_t ms) {
        int64_t end = vp::nowUs() + ms * 1000;
        for (;;) {
            PushRes r = tryPush(m);
            if (r != FULLQ || vp::nowUs() > end) return r;
            vp::sleepUs(500);
        }
    }
    // Pops one message; false: none within ms.
    bool pop(std::string& m, int64_t ms) {
        if (!q->waitForRead(ms)) return false;
        if (!q->processRWLock(20000)) { q->notifyRead(); return false; }
        int64_t n = 0;
        char c;
        bool ok = false;
        if (q->msgNumber() > 0) {
            m.assign(64, '\0');
            ok = q->popFront(&m[0], 64, n);
            if (!ok && n > 0) { m.assign((size_t)n, '\0'); ok = q->popFront(&m[0], n, n); }
            if (ok) m.resize((size_t)n);
        }
        (void)c;
        q->processRWUnlock();
        return ok;
    }
    int64_t number() {
        if (!q->processRWLock(20000)) return -1;
        int64_t n = q->msgNumber();
        q->processRWUnlock();
        return n;
    }
};

using mref::Node;
inline Node callNode(const std::string& id, const std::string& from, const std::string& fn, std::vector<Node> args) {
    return Node::arr({Node::integer(0), Node::str(id), Node::str(from), Node::str(fn), Node::arr(std::move(args))});
}
inline Node answerNode(const std::string& id, Node err, Node res) {
    return Node::arr({Node::integer(1), Node::str(id), std::move(err), std::move(res)});
}
inline int depthOf(const Node& n) {
    int d = 0;
    for (auto& x : n.c) d = std::max(d, depthOf(x));
    return d + 1;
}
}  // namespace raw
