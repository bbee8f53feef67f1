SEEDS = [
    dict(id="mmap-fail-name", property="C18",
         needs="mmap of the shared memory of one of the queues is refused during initialisation.",
         what_it_breaks="The failed initialisation leaves the named object in /dev/shm behind.",
         edits=[("src/shared_memory.cpp", """        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\\n", size_, err);

        undo();
        ::close(fd_);
        fd_ = -1;
        return false;
    }

    data_ = static_cast<uint8_t*>(memory);

    if (!data_) {
        undo();
        ::close(fd_);
        fd_ = -1;
        return false;
    }
""", """        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\\n", size_, err);
        close();
        return false;
    }

    data_ = static_cast<uint8_t*>(memory);

    if (!data_) {
        close();
        return false;
    }
""")],
         flags="-Wl,--wrap=mmap",
         demo="""static int g_fail = 0;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o) {
    if (g_fail > 0 && --g_fail == 0) { errno = ENOMEM; return MAP_FAILED; }
    return __real_mmap(a, l, p, f, fd, o);
}
int main() {
    for (int n = 1; n <= 2; n++) {
        Veigar v;
        g_fail = n;
        REQUIRE(!v.init(N("x"), 10, 300), "initialised without memory");
        g_fail = 0;
        REQUIRE(shmNames(N("x")) == 0, "a name is left behind when mapping %d is refused", n);
        REQUIRE(v.init(N("x"), 10, 300), "retry");
        v.uninit();
    }
}
"""),
    dict(id="thread-fail-open", property="C18",
         needs="The creation of one of the response dispatcher's threads is refused.",
         what_it_breaks="Initialise reports success although the instance has no thread that receives answers (or fewer than it should): all its calls time out.",
         edits=[("src/resp_dispatcher.cpp", """    init_ = true;

    try {
        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
        }
    } catch (std::exception& e) {
        veigar::log("Veigar: Error: Create response dispatcher thread failed: %s.\\n", e.what());
        uninit();
    }

    return init_;
""", """    try {
        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
        }
    } catch (std::exception& e) {
        veigar::log("Veigar: Warning: Only %d of %d response dispatcher threads: %s.\\n", (int)workers_.size(), (int)VEIGAR_DISPATCHER_THREAD_NUMBER, e.what());
    }

    init_ = true;

    return true;
""")],
         flags="-ldl",
         demo="""#include <dlfcn.h>
#include <pthread.h>
static std::atomic<int> g_count{0}, g_from{1000}, g_to{1000};
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    typedef int (*Fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
    int n = ++g_count;
    if (n >= g_from && n < g_to) return EAGAIN;
    return real(t, a, f, p);
}
int main() {
    Veigar p;
    g_count = 0;
    REQUIRE(p.init(N("p"), 10, 300), "init");
    p.uninit();
    const int all = g_count;
    for (int n = 1; n <= all; n++) {
        Veigar v;
        g_count = 0;
        g_from = n;
        g_to = n + 1;
        bool ok = v.init(N("x"), 10, 300);
        g_from = g_to = 1000;
        REQUIRE(!ok, "initialised although creating the threads from number %d on was refused", n);
        REQUIRE(shmNames(N("x")) == 0, "a name is left behind");
    }
}
"""),
    dict(id="uninit-keeps-queued", property="C14",
         needs="Calls that wait for space in a full queue when the instance is uninitialised.",
         what_it_breaks="The memory of the messages that were not sent yet is not released.",
         edits=[("src/sender.cpp", """    while (!callList_.empty()) {
        CallMeta cm = callList_.front();
        if (cm.data) {
            free(cm.data);
        }
        callList_.pop_front();
    }
""", """    callList_.clear();
""")],
         demo="""int main() {
    MessageQueue q(1, 600);
    REQUIRE(q.create(N("full_call")) && q.pushBack("x", 1), "queue");
    size_t before = 0;
    for (int life = 0; life < 5; life++) {
        {
            Veigar v;
            REQUIRE(v.init(N("a"), 10, 300), "init");
            std::string arg(400, 'a');
            std::vector<std::shared_ptr<AsyncCallResult>> ps;
            for (int i = 0; i < 200; i++) ps.push_back(v.asyncCall(N("full"), 20000, "f", arg));
            ms(50);
            v.uninit();
        }
        size_t now = mallinfo2().uordblks;
        if (life == 1) before = now;
        if (life == 4) REQUIRE(now < before + 40000, "%zu bytes more are in use after three lives", now - before);
    }
}
"""),
    dict(id="timeout-keeps-call", property="C14",
         needs="Synchronous calls that are never answered.",
         what_it_breaks="A synchronous call that timed out stays registered for ever.",
         edits=[("include/veigar/veigar.inl", """    releaseCall(acr->first);

    if (!answered) {
        CallResult cr;
        cr.errCode = ErrorCode::TIMEOUT;
        cr.errorMessage = "Waiting for call result timeout.";
        return cr;
    }

    return acr->second.get();
""", """    if (!answered) {
        CallResult cr;
        cr.errCode = ErrorCode::TIMEOUT;
        cr.errorMessage = "Waiting for call result timeout.";
        return cr;
    }

    releaseCall(acr->first);

    return acr->second.get();
""")],
         demo="""int main() {
    MessageQueue q(3000, 200);
    REQUIRE(q.create(N("mute_call")), "queue");
    Veigar v;
    REQUIRE(v.init(N("a"), 10, 300), "init");
    v.setTimeoutOfRWLock(1);
    size_t before = 0;
    for (int i = 0; i < 1200; i++) {
        if (i == 200) before = mallinfo2().uordblks;
        CallResult r = v.syncCall(N("mute"), 2, "f", i);
        REQUIRE(!r.isSuccess(), "answered by nobody");
    }
    ms(100);
    size_t now = mallinfo2().uordblks;
    v.uninit();
    REQUIRE(now < before + 100000, "%zu bytes more are in use after 1000 calls that timed out", now - before);
}
"""),
    dict(id="reuse-queue", property="C10",
         needs="The process that served the channel was killed with calls in its queue (or while it held the lock) and another one takes over.",
         what_it_breaks="The new instance attaches to the queue of the dead one: old calls are executed by it.",
         edits=[("src/call_dispatcher.cpp", """    if (!impl_->callMsgQueue_->create(veigar_->channelName() + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) {
""", """    // A queue that survived a crash is used again, so that callers that are connected to it need not reconnect.
    if (!impl_->callMsgQueue_->open(veigar_->channelName() + VEIGAR_CALL_QUEUE_NAME_SUFFIX) &&
        !impl_->callMsgQueue_->create(veigar_->channelName() + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) {
""")],
         demo="""int main() {
    const std::string ch = N("s");
    pid_t p = fork();
    if (p == 0) {
        Veigar v;
        v.bind("f", [](int x) { ms(20000); return x; });
        if (!v.init(ch, 10, 300)) _exit(1);
        Veigar c;
        if (!c.init(ch + "c", 10, 300)) _exit(1);
        for (int i = 0; i < 8; i++) c.asyncCall(ch, 10000, "f", i);
        ms(300);
        kill(getpid(), SIGKILL);
    }
    int st;
    waitpid(p, &st, 0);
    REQUIRE(WIFSIGNALED(st), "the child was not killed");
    Veigar v;
    std::atomic<int> old{0};
    v.bind("f", [&](int x) { if (x < 100) old++; return x; });
    REQUIRE(v.init(ch, 10, 300), "init after a crash");
    CallResult r = v.syncCall(ch, 5000, "f", 100);
    ms(100);
    v.uninit();
    for (const char* s : {"_call_shm", "_resp_shm", "sem._call"}) (void)s;
    for (const char* e : {"_call", "_resp"}) { MessageQueue q(1, 1); q.create(ch + "c" + e); }
    REQUIRE(r.isSuccess() && r.obj.get().as<int>() == 100, "a call after the restart failed");
    REQUIRE(old == 0, "%d calls of the dead instance were executed", (int)old);
}
"""),
    dict(id="resp-timeout-unit", property="C08",
         needs="The caller's response queue is full for some milliseconds when the answer is sent.",
         what_it_breaks="The time that an answer waits for space is too short by a factor of 1000: the answer is dropped and the call is never completed.",
         edits=[("src/veigar.cpp", """    rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
""", """    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
    rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT;  // ms
""")],
         demo="""int main() {
    Veigar a, b;
    a.setTimeoutOfRWLock(5000);
    b.setTimeoutOfRWLock(5000);
    b.bind("f", [](int x) { return x + 1; });
    REQUIRE(a.init(N("a"), 3, 300) && b.init(N("b"), 300, 300), "init");
    std::atomic<int> blocked{0};
    for (int i = 0; i < 3; i++) a.asyncCall([&](const CallResult&) { blocked++; ms(250); }, N("b"), 5000, "f", i);
    while (blocked < 3) ms(1);   // all threads that receive answers are busy
    std::vector<std::shared_ptr<AsyncCallResult>> ps;
    for (int i = 0; i < 8; i++) ps.push_back(a.asyncCall(N("b"), 5000, "f", i));
    for (int i = 0; i < 8; i++) REQUIRE(ps[i]->second.wait_for(std::chrono::seconds(5)) == std::future_status::ready, "the answer of call %d is lost", i);
    a.uninit();
    b.uninit();
}
"""),
    dict(id="resize-unlocked", property="C01",
         needs="Answers larger than the message size that arrive at the same time, so that another thread takes the message between the two attempts to pop it.",
         what_it_breaks="The lock of the response queue is released while the buffer grows: the message popped afterwards is another one, it may not fit and its signal is lost, its call hangs.",
         edits=[("src/resp_dispatcher.cpp", """            try {
                msgBuf.resize((size_t)written);
            } catch (std::bad_alloc& e) {
                veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\\n", written, e.what());
                respMsgQueue_->processRWUnlock();
                respMsgQueue_->notifyRead();  // the message is still there
                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                continue;
            }
""", """            // Don't keep the others waiting while memory is allocated.
            respMsgQueue_->processRWUnlock();
            try {
                msgBuf.resize((size_t)written);
            } catch (std::bad_alloc& e) {
                veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\\n", written, e.what());
                respMsgQueue_->notifyRead();
                continue;
            }
            if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
                respMsgQueue_->notifyRead();
                continue;
            }
""")],
         flags="-Wl,--wrap=sem_post",
         demo="""#include <semaphore.h>
static std::atomic<int> g_slow{0};
extern "C" int __real_sem_post(sem_t*);
extern "C" int __wrap_sem_post(sem_t* s) {
    int r = __real_sem_post(s);
    if (g_slow) { static thread_local unsigned n = (unsigned)(size_t)&r; n = n * 1103515245 + 12345; std::this_thread::sleep_for(std::chrono::microseconds((n >> 16) % 1000)); }
    return r;
}
int main() {
    for (int round = 0; round < 40; round++) {
        Veigar v;
        v.setTimeoutOfRWLock(5000);
        v.bind("g", [](int n) { return std::string((size_t)n, 'x'); });
        REQUIRE(v.init(N("a"), 200, 100), "init");
        g_slow = 1;
        std::vector<std::shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < 12; i++) ps.push_back(v.asyncCall(N("a"), 20000, "g", 100 + (i * 7 % 12) * 60));
        for (int i = 0; i < 12; i++) {
            REQUIRE(ps[i]->second.wait_for(std::chrono::seconds(3)) == std::future_status::ready, "an answered call was never completed");
            CallResult r = ps[i]->second.get();
            REQUIRE(r.isSuccess() && r.obj.get().as<std::string>().size() == (size_t)(100 + (i * 7 % 12) * 60), "wrong result");
        }
        g_slow = 0;
        v.uninit();
    }
}
"""),
    dict(id="int-min", property="C02",
         needs="The smallest value of a signed integer type.",
         what_it_breaks="The smallest value of a signed integer type is rejected when it is converted to that type.",
         edits=[("include/veigar/msgpack/v1/adaptor/int.hpp", """            if(o.via.i64 < static_cast<int64_t>(std::numeric_limits<T>::min()))
""", """            if(o.via.i64 < -static_cast<int64_t>(std::numeric_limits<T>::max()))
""")],
         demo="""#include <limits>
int main() {
    Veigar v;
    v.bind("a", [](int8_t x) { return x; });
    v.bind("b", [](int64_t x) { return x; });
    REQUIRE(v.init(N("a"), 20, 300), "init");
    CallResult r = v.syncCall(N("a"), 5000, "a", (int8_t)-128);
    CallResult s = v.syncCall(N("a"), 5000, "b", std::numeric_limits<int64_t>::min());
    v.uninit();
    REQUIRE(r.isSuccess() && r.obj.get().as<int8_t>() == -128, "-128");
    REQUIRE(s.isSuccess() && s.obj.get().as<int64_t>() == std::numeric_limits<int64_t>::min(), "the smallest 64 bit integer");
}
"""),
    dict(id="unbind-busy", property="C20",
         needs="A function is unbound while a call to it is running.",
         what_it_breaks="The function stays bound and is called although it was unbound; binding another one fails.",
         edits=[("src/call_dispatcher.cpp", """    auto it = funcs_.find(name);
    if (it != funcs_.end()) {
        func = std::move(it->second);
        funcs_.erase(it);
    }
}

Response""", """    auto it = funcs_.find(name);
    if (it != funcs_.end() && it->second.use_count() == 1) {
        func = std::move(it->second);
        funcs_.erase(it);
    }
}

Response""")],
         demo="""int main() {
    Veigar v;
    std::atomic<int> in{0};
    v.bind("f", [&]() { in = 1; ms(200); return 1; });
    REQUIRE(v.init(N("a"), 20, 300), "init");
    auto p = v.asyncCall(N("a"), 5000, "f");
    while (!in) ms(1);
    v.unbind("f");
    CallResult r = v.syncCall(N("a"), 5000, "f");
    bool again = v.bind("f", []() { return 2; });
    v.uninit();
    REQUIRE(!r.isSuccess(), "a function that was unbound was called");
    REQUIRE(again, "cannot bind again");
}
"""),
    dict(id="own-limits", property="C15",
         needs="A message that is larger than the caller's own queue but not than the target's.",
         what_it_breaks="The caller compares the size of a call with its own queue settings instead of the target's.",
         edits=[("src/veigar.cpp", """    cm.dataSize = buffer ? buffer->size() : 0;
""", """    const size_t dataSize = buffer ? buffer->size() : 0;
    if (dataSize > (size_t)impl_->msgQueueCapacity_ * impl_->expectedMsgMaxSize_) {
        exceptionMsg = "The message exceeds the total size of the message queue.";
        return false;
    }
    cm.dataSize = dataSize;
""")],
         demo="""int main() {
    Veigar a, b;
    b.bind("f", [](std::string s) { return (int)s.size(); });
    REQUIRE(a.init(N("a"), 2, 250) && b.init(N("b"), 100, 1000), "init");
    CallResult r = a.syncCall(N("b"), 5000, "f", std::string(3000, 'x'));
    a.uninit();
    b.uninit();
    REQUIRE(r.isSuccess() && r.obj.get().as<int>() == 3000, "a message that fits into the target's queue was not sent: %s", r.errorMessage.c_str());
}
"""),
    dict(id="shm-keep-larger", property="C17",
         needs="Creating a region over an existing larger or equally large one (of a creator that died or is still there), or opening it with a size in between.",
         what_it_breaks="The region keeps its larger size, so it is opened successfully with sizes that its creator never asked for.",
         edits=[("src/shared_memory.cpp", """    int ret = ftruncate(fd_, size_);
    if (ret != 0) {
""", """    struct stat st;
    int ret = 0;
    if (fstat(fd_, &st) != 0 || (int64_t)st.st_size < size_ || size_ <= 0) {
        ret = ftruncate(fd_, size_);
    }
    if (ret != 0) {
""")],
         demo="""int main() {
    {
        int fd = shm_open(("/" + N("m")).c_str(), O_CREAT | O_RDWR, 0666);   // remains of a dead process
        REQUIRE(fd >= 0 && ftruncate(fd, 100000) == 0, "shm");
        close(fd);
    }
    SharedMemory a(N("m"), 100), b(N("m"), 50000);
    REQUIRE(a.create(), "create");
    bool opened = b.open();
    if (opened) b.close();
    a.close();
    REQUIRE(!opened, "a region of 100 bytes was opened with 50000");
}
"""),
    dict(id="bind-replaces", property="C09",
         needs="Binding a name that is already bound.",
         what_it_breaks="The failed bind replaces the function that was bound.",
         edits=[("src/call_dispatcher.cpp", """    return funcs_.insert(std::make_pair(name, newFunc)).second;
""", """    std::shared_ptr<AdaptorType>& slot = funcs_[name];
    const bool added = !slot;
    slot = newFunc;
    return added;
"""), ("src/call_dispatcher.cpp", """    auto pos = funcs_.find(func);
    if (pos != end(funcs_)) {
        return true;
    }
    return false;
}
""", """    return funcs_.count(func) > 1;
}
""")],
         demo="""int main() {
    Veigar v;
    REQUIRE(v.bind("f", []() { return 1; }), "bind");
    REQUIRE(!v.bind("f", []() { return 2; }), "bound twice");
    REQUIRE(v.init(N("a"), 20, 300), "init");
    CallResult r = v.syncCall(N("a"), 5000, "f");
    v.uninit();
    REQUIRE(r.isSuccess() && r.obj.get().as<int>() == 1, "the failed bind changed the function");
}
"""),
]
