SEEDS = [
    dict(id="sync-second-wait", property="C07",
         needs="A synchronous call that isn't answered in time.",
         what_it_breaks="It returns only after half as much time again.",
         edits=[("include/veigar/veigar.inl", """    releaseCall(acr->first);

    if (!answered) {
""", """    // The answer may be on its way.
    if (answered || acr->second.wait_for(std::chrono::milliseconds(timeoutMS / 2)) != std::future_status::ready) {
        releaseCall(acr->first);
    }

    if (!answered) {
""")],
         demo="""int main() {
    Veigar v;
    std::atomic<bool> go{false};
    v.bind("slow", [&] { for (int i = 0; i < 600 && !go; i++) ms(10); });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    double t = now();
    CallResult r = v.syncCall(N("a"), 2000, "slow");
    t = now() - t;
    go = true;
    REQUIRE(!r.isSuccess(), "the call succeeded");
    REQUIRE(t < 2.8, "a call with a timeout of 2 s returned after %.1f s", t);
    v.uninit();
}
"""),
    dict(id="late-kills-reader", property="C07",
         needs="Three answers that come after their calls timed out.",
         what_it_breaks="Each one ends a thread that reads answers; after the third no call gets its answer any more.",
         edits=[("src/resp_dispatcher.cpp", """                if (callId.empty()) {
                    veigar::log("Veigar: Warning: Call id is empty.\\n");
                    continue;
                }

                // Only one answer can complete the call.
                if (!takeOngoingCall(callId, retMeta)) {
                    veigar::log("Veigar: Warning: Unable to find call: %s.\\n", callId.c_str());
                    continue;
                }
""", """                if (callId.empty()) {
                    veigar::log("Veigar: Warning: Call id is empty.\\n");
                    continue;
                }

                // Only one answer can complete the call.
                if (!takeOngoingCall(callId, retMeta)) {
                    veigar::log("Veigar: Warning: Unable to find call: %s.\\n", callId.c_str());
                    return;
                }
""")],
         demo="""int main() {
    Veigar v;
    v.bind("slow", [](int t) { ms(t); return t; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    for (int i = 0; i < 5; i++) {
        CallResult r = v.syncCall(N("a"), 100, "slow", 300);
        REQUIRE(!r.isSuccess(), "the call succeeded");
        ms(400);
    }
    v.setTimeoutOfRWLock(5000);
    CallResult r = v.syncCall(N("a"), 10000, "slow", 1);
    REQUIRE(r.isSuccess(), "no answer after some late ones");
    v.uninit();
}
"""),
    dict(id="open-retry", property="C03",
         needs="Calls to a channel that nobody serves while others are made to one that is served.",
         what_it_breaks="The others are held up for 2 s and time out.",
         edits=[("src/sender.cpp", """    queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
    if (!queue->open(channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX)) {
""", """    queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
    bool opened = queue->open(channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX);
    for (int retry = 0; !opened && retry < 20 && !callListSetEvent_.isCancelled(); ++retry) {
        // The target may be just about to start.
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        opened = queue->open(channelName + VEIGAR_CALL_QUEUE_NAME_SUFFIX);
    }
    if (!opened) {
""")],
         demo="""int main() {
    Veigar v, w;
    v.bind("f", [](int x) { return x; });
    w.setTimeoutOfRWLock(800);
    REQUIRE(v.init(N("a"), 10, 300) && w.init(N("b"), 10, 300), "init");
    for (int i = 0; i < 4; i++) {
        auto p = w.asyncCall(N("nobody"), 5000, "f", 1);
        auto q = w.asyncCall(N("nobody"), 5000, "f", 1);
        CallResult r = w.syncCall(N("a"), 1000, "f", 1);
        REQUIRE(r.isSuccess(), "a call to a served channel failed because of others: %s", r.errorMessage.c_str());
    }
    v.uninit();
    w.uninit();
}
"""),
    dict(id="sem-topup", property="C06",
         needs="Opening a named semaphore that exists and whose value is below the initial value.",
         what_it_breaks="Its value changes: units appear that nobody released.",
         edits=[("src/semaphore.cpp", """    sem_t* sem = ::sem_open(name.c_str(), O_CREAT, 0666, static_cast<unsigned int>(value));
    if (sem != SEM_FAILED) {
        sh_->named_ = sem;
    }
""", """    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_RDWR, 0666, static_cast<unsigned int>(value));
    if (sem != SEM_FAILED) {
        int current = value;
        if (::sem_getvalue(sem, &current) == 0 && current == 0 && value > 0) {
            ::sem_post(sem);
        }
        sh_->named_ = sem;
    }
""")],
         demo="""int main() {
    Semaphore a, b;
    REQUIRE(a.open(N("s"), 1), "open");
    REQUIRE(a.wait((int64_t)1000), "wait");
    REQUIRE(b.open(N("s"), 1), "open");
    REQUIRE(!b.wait((int64_t)200), "a unit that nobody released");
    a.close();
    b.close();
    Semaphore::Unlink(N("s"));
}
"""),
    dict(id="open-mmap-fd", property="C18",
         needs="mmap is refused while contacting a peer.",
         what_it_breaks="A file descriptor leaks each time.",
         edits=[("src/shared_memory.cpp", """        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\\n", size_, err);

        ::close(fd_);
        fd_ = -1;
        return false;
""", """        veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\\n", size_, err);

        fd_ = -1;
        return false;
""")],
         flags="-Wl,--wrap=mmap",
         demo="""static std::atomic<int> g_fail{0};
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o) {
    if (g_fail) { errno = ENOMEM; return MAP_FAILED; }
    return __real_mmap(a, l, p, f, fd, o);
}
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main() {
    Veigar v, w;
    v.bind("f", [](int x) { return x; });
    v.setTimeoutOfRWLock(5000);
    w.setTimeoutOfRWLock(5000);
    REQUIRE(v.init(N("a"), 10, 300) && w.init(N("b"), 10, 300), "init");
    int n = fds();
    g_fail = 1;
    for (int i = 0; i < 5; i++) REQUIRE(!w.syncCall(N("a"), 10000, "f", 1).isSuccess(), "a call succeeded without memory");
    g_fail = 0;
    REQUIRE(fds() <= n, "file descriptors leak: %d -> %d", n, fds());
    REQUIRE(w.syncCall(N("a"), 10000, "f", 1).isSuccess(), "retry");
    v.uninit();
    w.uninit();
}
"""),
    dict(id="lock-timeout-plain", property="C16",
         needs="Setting the lock timeout while background threads read it (a data race).",
         what_it_breaks="The setting is written and read by several threads without synchronisation.",
         edits=[("src/veigar.cpp", """    std::atomic<uint32_t> processRWTimeout_ = { 30 };  // ms
""", """    uint32_t processRWTimeout_ = 30;  // ms
"""), ("src/veigar.cpp", """        impl_->processRWTimeout_.store(ms);
""", """        impl_->processRWTimeout_ = ms;
"""), ("src/veigar.cpp", """    return impl_->processRWTimeout_.load();
""", """    return impl_->processRWTimeout_;
""")],
         cxx="clang++", flags="-fsanitize=thread",
         demo="""int main() {
    Veigar v;
    v.bind("f", [](int x) { return x; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    std::atomic<bool> stop{false};
    std::thread t([&] { while (!stop) { v.setTimeoutOfRWLock(5000); ms(1); } });
    for (int i = 0; i < 200; i++) v.syncCall(N("a"), 6000, "f", 1);
    stop = true;
    t.join();
    v.uninit();
}
"""),
    dict(id="resp-flag", property="C11",
         needs="A message in the response queue that has the shape of an answer to a waiting call, but not the kind of one.",
         what_it_breaks="It completes the call.",
         edits=[("src/resp_dispatcher.cpp", """                if (msgFlag != 1) {
                    veigar::log""", """                if (msgFlag == 0) {
                    veigar::log""")],
         demo="""int main() {
    Veigar v;
    v.setTimeoutOfRWLock(3000);
    REQUIRE(v.init(N("a"), 10, 300), "init");
    MessageQueue peer(10, 300), mine(1, 1);
    REQUIRE(peer.create(N("p") + "_call") && mine.open(N("a") + "_resp"), "queues");
    auto p = v.asyncCall(N("p"), 10000, "f", 1);
    REQUIRE(peer.waitForRead(5000), "no call");
    veigar_msgpack::sbuffer b;
    veigar_msgpack::pack(b, std::make_tuple(2, p->first, veigar_msgpack::type::nil_t(), 77));
    REQUIRE(mine.processRWLock(5000) && mine.pushBack(b.data(), (int64_t)b.size()), "push");
    mine.notifyRead();
    mine.processRWUnlock();
    REQUIRE(p->second.wait_for(std::chrono::milliseconds(800)) != std::future_status::ready, "a message of another kind completed the call");
    v.releaseCall(p->first);
    v.uninit();
}
"""),
    dict(id="lookup-cache", property="C20",
         needs="A function that is unbound while an execution of it is running, and later calls handled by a thread that called it before.",
         what_it_breaks="Calls started after unbind and bind have returned run the removed function as long as the execution lasts.",
         edits=[("src/call_dispatcher.cpp", """    auto&& funcName = std::get<3>(the_call);
""", """    const std::string& funcName = std::get<3>(the_call);
    static thread_local LastFunc last;
"""), ("src/call_dispatcher.cpp", """using detail::Response;
""", """using detail::Response;

// The function a thread called last, it expires when the function is unbound.
struct LastFunc {
    const void* owner = nullptr;
    std::string name;
    std::weak_ptr<CallDispatcher::AdaptorType> func;
};
"""),
    ("src/call_dispatcher.cpp", """    std::shared_ptr<AdaptorType> func;
    {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        auto itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.cend()) {
            func = itFunc->second;
        }
    }
""", """    std::shared_ptr<AdaptorType> func;
    if (last.owner == impl_ && last.name == funcName) {
        func = last.func.lock();
    }
    if (!func) {
        std::lock_guard<std::mutex> lg(funcsMutex_);
        auto itFunc = funcs_.find(funcName);
        if (itFunc != funcs_.cend()) {
            func = itFunc->second;
            last.owner = impl_;
            last.name = funcName;
            last.func = func;
        }
    }
""")],
         demo="""int main() {
    Veigar v;
    v.setTimeoutOfRWLock(5000);
    std::atomic<int> entered{0};
    std::atomic<bool> go{false};
    v.bind("other", [] { return 0; });
    v.bind("f", [&](int x) { entered++; while (x == 1 && !go) ms(5); return 1; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    for (int i = 0; i < 30; i++) v.syncCall(N("a"), 10000, "f", 0);
    // one thread keeps executing the function, it stays alive
    auto p = v.asyncCall(N("a"), 10000, "f", 1);
    while (entered < 31) ms(5);
    v.unbind("f");
    v.bind("f", [](int) { return 2; });
    int old = 0;
    for (int i = 0; i < 30; i++) {
        CallResult r = v.syncCall(N("a"), 10000, "f", 0);
        int x = 0;
        REQUIRE(r.isSuccess() && r.convertObject(x), "call");
        old += x == 1;
    }
    go = true;
    p->second.wait();
    v.releaseCall(p->first);
    v.uninit();
    REQUIRE(old == 0, "%d calls started after unbind and bind ran the removed function", old);
}
"""),
]
