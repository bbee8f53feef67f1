SEEDS = [
    dict(id="timeout-int", property="C07",
         needs="A synchronous call with a timeout above 2^31-1 ms, as it is used for 'no limit'.",
         what_it_breaks="The timeout turns negative: the call reports a timeout at once although the answer comes in time.",
         edits=[("include/veigar/veigar.inl", """    std::shared_ptr<AsyncCallResult> acr = doAsyncCall(targetChannel, timeoutMS, funcName, std::forward<Args>(args)...);
    if (!acr || !acr->second.valid()) {""", """    const int waitMS = timeoutMS;
    std::shared_ptr<AsyncCallResult> acr = doAsyncCall(targetChannel, waitMS, funcName, std::forward<Args>(args)...);
    if (!acr || !acr->second.valid()) {"""),
                ("include/veigar/veigar.inl", "acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) == std::future_status::ready);",
                 "acr->second.wait_for(std::chrono::milliseconds(waitMS)) == std::future_status::ready);")],
         demo="""int main() {
    Veigar v;
    v.bind("f", [] { ms(100); return 5; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    REQUIRE(v.syncCall(N("a"), 5000, "f").isSuccess(), "a plain call");
    CallResult r = v.syncCall(N("a"), UINT32_MAX, "f");
    REQUIRE(r.isSuccess(), "%s", r.errorMessage.c_str());
    r = v.syncCall(N("a"), 3000000000u, "f");
    REQUIRE(r.isSuccess(), "%s", r.errorMessage.c_str());
    v.uninit();
}
"""),
    dict(id="init-hoist", property="C09",
         needs="Initialising an instance again, with its own name but other sizes, or failing to.",
         what_it_breaks="The getters report sizes that were never in effect.",
         edits=[("src/veigar.cpp", """        if (isInit_) {
            veigar::log("Veigar: Warning: Already init.\\n");""", """        std::swap(msgQueueCapacity_, msgQueueCapacity);
        if (isInit_) {
            veigar::log("Veigar: Warning: Already init.\\n");"""),
                ("src/veigar.cpp", """            msgQueueCapacity_ = msgQueueCapacity;
            expectedMsgMaxSize_ = expectedMsgMaxSize;

            uuid_""", """            expectedMsgMaxSize_ = expectedMsgMaxSize;

            uuid_"""),
                ("src/veigar.cpp", "const uint32_t oldMsgQueueCapacity = msgQueueCapacity_;", "const uint32_t oldMsgQueueCapacity = msgQueueCapacity;")],
         demo="""int main() {
    Veigar v;
    REQUIRE(v.init(N("a"), 10, 300), "init");
    REQUIRE(v.msgQueueCapacity() == 10, "capacity");
    REQUIRE(v.init(N("a"), 99, 300), "again");
    REQUIRE(v.msgQueueCapacity() == 10, "the capacity changed to %u", v.msgQueueCapacity());
    REQUIRE(!v.init(N("b"), 98, 300), "other name");
    REQUIRE(v.msgQueueCapacity() == 10, "the capacity changed to %u", v.msgQueueCapacity());
    v.uninit();
}
"""),
    dict(id="opener-unlinks", property="C17",
         needs="A handle that created a region, closed it, and opens the region that somebody else has created meanwhile.",
         what_it_breaks="Closing it removes the name of the other one's region.",
         edits=[("src/shared_memory.cpp", """        if (shmCreator_) {
            shmCreator_ = false;
            if (!path_.empty()) {
                shm_unlink(path_.c_str());
            }
        }""", """        if (shmCreator_ && !path_.empty()) {
            shm_unlink(path_.c_str());
        }""")],
         demo="""int main() {
    std::string n = N("shm");
    SharedMemory a(n, 4096), b(n, 4096), c(n, 4096);
    REQUIRE(a.create(), "create");
    a.close();
    REQUIRE(b.create(), "create");
    REQUIRE(a.open(), "open");
    a.close();
    REQUIRE(c.open(), "the region is gone although its creator hasn't closed it");
    c.close();
    b.close();
}
"""),
    dict(id="pack-ext-64k", property="C12",
         needs="Extension data of exactly 65536 bytes.",
         what_it_breaks="It is encoded with length 0, its bytes follow as further values.",
         edits=[("include/veigar/msgpack/v1/pack.hpp", """        } else if(l < 65536) {
            char buf[4];
            buf[0] = static_cast<char>(0xc8u);""", """        } else if(l <= 65536) {
            char buf[4];
            buf[0] = static_cast<char>(0xc8u);""")],
         demo="""int main() {
    for (size_t n : {255u, 256u, 65535u, 65536u, 65537u}) {
        std::string body(n, 'x');
        veigar_msgpack::sbuffer b;
        veigar_msgpack::packer<veigar_msgpack::sbuffer> pk(b);
        pk.pack_ext(n, 5);
        pk.pack_ext_body(body.data(), (uint32_t)n);
        veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
        REQUIRE(h.get().type == veigar_msgpack::type::EXT && h.get().via.ext.size == n && h.get().via.ext.type() == 5, "size %zu becomes %u", n, h.get().via.ext.size);
    }
}
"""),
    dict(id="multiset-keeps", property="C12",
         needs="Converting an array to a multiset variable that is not empty.",
         what_it_breaks="The former elements stay in the variable.",
         edits=[("include/veigar/msgpack/v1/adaptor/set.hpp", """        std::multiset<T, Compare, Alloc> tmp;
        while (p > pbegin) {
            --p;
            tmp.insert(p->as<T>());""", """        std::multiset<T, Compare, Alloc> tmp(v);
        while (p > pbegin) {
            --p;
            tmp.insert(p->as<T>());""")],
         demo="""int main() {
    veigar_msgpack::sbuffer b;
    veigar_msgpack::pack(b, std::vector<int>{3, 1, 3});
    veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
    std::multiset<int> s = {7};
    h.get().convert(s);
    REQUIRE((s == std::multiset<int>{1, 3, 3}), "%zu elements", s.size());
}
"""),
    dict(id="printf-static", property="C03",
         needs="Several threads that format error texts at the same moment.",
         what_it_breaks="They share one buffer: a call fails with the text of another one, or the process crashes.",
         edits=[("src/string_helper.cpp", """    char* msgBuf = nullptr;
    size_t msgBufSize = 1024;

    try {
        do {
            if (msgBuf) {
                free(msgBuf);
                msgBuf = nullptr;
            }
            msgBuf = (char*)malloc(msgBufSize * sizeof(char));
            if (!msgBuf) {
                break;
            }
""", """    static char cachedBuf[1024];
    char* msgBuf = nullptr;
    size_t msgBufSize = sizeof(cachedBuf);

    try {
        do {
            if (msgBuf && msgBuf != cachedBuf) {
                free(msgBuf);
                msgBuf = nullptr;
            }

            // short texts need no allocation
            msgBuf = msgBufSize <= sizeof(cachedBuf) ? cachedBuf : (char*)malloc(msgBufSize * sizeof(char));
            if (!msgBuf) {
                break;
            }
"""), ("src/string_helper.cpp", """            output.assign(msgBuf);
        }

        if (msgBuf) {
            free(msgBuf);
            msgBuf = nullptr;
        }
    } catch (std::exception& e) {
        (e);
        ret = false;
    }

    return ret;
#endif
}

bool StringHelper::StringPrintfV(const wchar_t""", """            output.assign(msgBuf);
        }

        if (msgBuf && msgBuf != cachedBuf) {
            free(msgBuf);
            msgBuf = nullptr;
        }
    } catch (std::exception& e) {
        (e);
        ret = false;
    }

    return ret;
#endif
}

bool StringHelper::StringPrintfV(const wchar_t""")],
         demo="""int main() {
    Veigar v;
    v.bind("f", [](int k) -> int { throw std::runtime_error("text" + std::string(200, 'a' + k) + "!"); });
    v.setTimeoutOfRWLock(5000);
    REQUIRE(v.init(N("a"), 100, 600), "init");
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < 6000 && !bad; i++) {
            CallResult r = v.syncCall(N("a"), 20000, "f", t);
            if (r.isSuccess() || r.errorMessage.find("text" + std::string(200, 'a' + t) + "!") == std::string::npos) bad++;
        }
    });
    for (auto& t : ts) t.join();
    REQUIRE(!bad, "a call failed with the wrong text");
    v.uninit();
}
"""),
    dict(id="resize-cap", property="C02",
         needs="A call whose message is more than eight times as large as the expected size, in a queue that has room for it.",
         what_it_breaks="It is never taken out of the queue; the call times out and the channel is blocked.",
         edits=[("src/call_dispatcher.cpp", """            if (written <= 0) {
                veigar::log("Veigar: Error: Pop front from call message queue failed.\\n");""", """            if (written <= 0 || written / 8 > veigar_->expectedMsgMaxSize()) {
                veigar::log("Veigar: Error: Pop front from call message queue failed.\\n");""")],
         demo="""int main() {
    Veigar v;
    v.bind("len", [](std::string s) { return s.size(); });
    REQUIRE(v.init(N("a"), 100, 100), "init");
    for (size_t n : {10u, 500u, 2000u, 9000u}) {
        CallResult r = v.syncCall(N("a"), 5000, "len", std::string(n, 'x'));
        size_t m = 0;
        REQUIRE(r.isSuccess() && r.convertObject(m) && m == n, "a call with %zu bytes: %s", n, r.errorMessage.c_str());
    }
    v.uninit();
}
"""),
    dict(id="cache-failed-open", property="C10",
         needs="An answer to a caller that is gone by then, and a successor of that caller on the same channel name.",
         what_it_breaks="The useless queue stays cached: the successor never gets an answer.",
         edits=[("src/sender.cpp", """    queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
    if (!queue->open(channelName + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX)) {
        queue.reset();
        veigar::log("Veigar: Error: Open response message queue(%s) failed.\\n", channelName.c_str());
        return nullptr;
    }

    targetRespMsgQueues_[channelName] = queue;
    return queue;""", """    std::shared_ptr<MessageQueue>& cached = targetRespMsgQueues_[channelName];
    cached = queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
    if (!queue->open(channelName + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX)) {
        queue.reset();
        veigar::log("Veigar: Error: Open response message queue(%s) failed.\\n", channelName.c_str());
    }

    return queue;""")],
         demo="""int main() {
    Veigar s;
    s.bind("slow", [](int t) { ms(t); return t; });
    REQUIRE(s.init(N("s"), 10, 300), "init");
    {
        Veigar c;
        REQUIRE(c.init(N("c"), 10, 300), "init");
        c.asyncCall(N("s"), 5000, "slow", 400);
        ms(150);
        c.uninit();
    }
    ms(600);
    Veigar c;
    REQUIRE(c.init(N("c"), 10, 300), "init");
    c.setTimeoutOfRWLock(2000);
    CallResult r = c.syncCall(N("s"), 4000, "slow", 1);
    REQUIRE(r.isSuccess(), "the successor gets no answer: %s", r.errorMessage.c_str());
    c.uninit();
    s.uninit();
}
"""),
    dict(id="guard-unlocks", property="C05",
         needs="A reader of a channel that doesn't get the lock of its queue in time because somebody holds it for longer.",
         what_it_breaks="The lock is released by the one that hasn't got it: two participants can be inside.",
         edits=[("src/call_dispatcher.cpp", """            veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\\n");
""", """            impl_->callMsgQueue_->processRWUnlock();
            veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue!\\n");
""")],
         demo="""int main() {
    Veigar v;
    v.bind("f", [] { return 5; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    REQUIRE(v.syncCall(N("a"), 5000, "f").isSuccess(), "a plain call");
    MessageQueue q(10, 300);
    REQUIRE(q.open(N("a") + VEIGAR_CALL_QUEUE_NAME_SUFFIX), "open");
    REQUIRE(q.processRWLock(5000), "lock");
    q.notifyRead();
    ms(300);
    REQUIRE(!q.processRWLock(0), "a second participant gets the lock");
    q.processRWUnlock();
    ms(200);
    v.uninit();
}
"""),
    dict(id="stop-notify-skip", property="C21",
         needs="Uninitialising an instance when a message waits in its response queue (a late answer, or one from a stranger) that only one thread is awake for.",
         what_it_breaks="Threads that sleep are not woken up: uninitialise never returns.",
         edits=[("src/resp_dispatcher.cpp", """    for (std::thread& worker : workers_) {
        respMsgQueue_->notifyRead();
    }
""", """    for (std::thread& worker : workers_) {
        // They are awake when there is something to read.
        if (respMsgQueue_->msgNumber() <= 0) {
            respMsgQueue_->notifyRead();
        }
    }
""")],
         demo="""int main() {
    Veigar v;
    REQUIRE(v.init(N("a"), 10, 300), "init");
    MessageQueue q(10, 300);
    REQUIRE(q.open(N("a") + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX), "open");
    REQUIRE(q.processRWLock(5000), "lock");
    REQUIRE(q.pushBack("abc", 3), "push");
    q.notifyRead();
    std::atomic<bool> done{false};
    std::thread t([&] { v.uninit(); done = true; });
    ms(100);
    q.processRWUnlock();
    for (int i = 0; i < 500 && !done; i++) ms(10);
    REQUIRE(done, "uninit doesn't return");
    t.join();
    q.close();
}
"""),
    dict(id="sem-fail-valid", property="C18",
         needs="The semaphore of a queue can't be created.",
         what_it_breaks="The failure goes unnoticed: initialise succeeds, the instance crashes or hangs.",
         edits=[("src/semaphore.cpp", """    if (sem != SEM_FAILED) {
        sh_->named_ = sem;
    }
    else {
        int err = errno;
        veigar::log("Veigar: Error: sem_open failed, name: %s, errno: %d.\\n", name.c_str(), err);
        delete sh_;
        sh_ = nullptr;
    }
#endif
    return valid();""", """    sh_->named_ = sem;
    if (sem == SEM_FAILED && errno != EMFILE && errno != ENFILE && errno != ENOMEM) {
        int err = errno;
        veigar::log("Veigar: Error: sem_open failed, name: %s, errno: %d.\\n", name.c_str(), err);
        delete sh_;
        sh_ = nullptr;
    }
#endif
    return valid();""")],
         flags="-Wl,--wrap=sem_open",
         demo="""static std::atomic<int> failAt{-1};
extern "C" sem_t* __real_sem_open(const char*, int, mode_t, unsigned);
extern "C" sem_t* __wrap_sem_open(const char* n, int f, mode_t m, unsigned v) {
    if ((f & O_CREAT) && failAt >= 0 && failAt-- == 0) { errno = EMFILE; return SEM_FAILED; }
    return __real_sem_open(n, f, m, v);
}
int main() {
    for (int k = 0; k < 4; k++) {
        pid_t p = fork();
        if (!p) {
            Veigar v;
            failAt = k;
            bool r = v.init(N("a"), 10, 300);
            failAt = -1;
            _exit(r ? 3 : 0);
        }
        int st = 0;
        for (int i = 0; i < 500; i++) { if (waitpid(p, &st, WNOHANG) == p) { p = 0; break; } ms(10); }
        if (p) kill(p, SIGKILL);
        REQUIRE(!p && WIFEXITED(st) && WEXITSTATUS(st) == 0, "init with refusal %d: %x", k, st);
    }
}
"""),
    dict(id="opener-keeps-map", property="C14",
         needs="Calls to peers: an opened (not created) region is closed.",
         what_it_breaks="Its mapping is never removed, memory grows with every contact.",
         edits=[("src/shared_memory.cpp", """        if (data_) {
            munmap(data_, size_);
            data_ = nullptr;
        }

        if (fd_ >= 0) {""", """        if (shmCreator_) {
            munmap(data_, size_);
        }
        data_ = nullptr;

        if (fd_ >= 0) {""")],
         demo="""static int maps(const std::string& n) {
    FILE* f = fopen("/proc/self/maps", "r");
    char line[600];
    int k = 0;
    while (fgets(line, sizeof line, f)) if (strstr(line, n.c_str())) k++;
    fclose(f);
    return k;
}
int main() {
    for (int i = 0; i < 3; i++) {
        Veigar a, b;
        b.bind("f", [] { return 1; });
        REQUIRE(a.init(N("a"), 10, 300) && b.init(N("b"), 10, 300), "init");
        REQUIRE(a.syncCall(N("b"), 5000, "f").isSuccess(), "call");
        a.uninit();
        b.uninit();
    }
    REQUIRE(maps(N("")) == 0, "%d mappings are left", maps(N("")));
}
"""),
    dict(id="stream-counter", property="C12",
         needs="A stream unpacker that holds part of a value behind finished ones and reserves just as much as fits into its initial size.",
         what_it_breaks="Less space than asked for is provided: the next chunk is written beyond the buffer.",
         edits=[("include/veigar/msgpack/v2/parse.hpp", "while(next_size < size + not_parsed + COUNTER_SIZE) {", "while(next_size < size + not_parsed) {")],
         demo="""int main() {
    for (size_t want = 1; want < 200; want++) {
        veigar_msgpack::unpacker u(nullptr, nullptr, 64);
        u.reserve_buffer(40);
        std::string d = "\\x01\\x02\\x03\\xa9" "abc";
        memcpy(u.buffer(), d.data(), d.size());
        u.buffer_consumed(d.size());
        veigar_msgpack::object_handle h;
        for (int i = 0; i < 3; i++) REQUIRE(u.next(h), "next");
        REQUIRE(!u.next(h), "an incomplete value");
        u.reserve_buffer(want);
        REQUIRE(u.buffer_capacity() >= want, "%zu bytes were reserved, %zu are there", want, u.buffer_capacity());
    }
}
"""),
    dict(id="rewind-shared", property="C12",
         needs="Keeping a value that a stream unpacker yielded while feeding it further data.",
         what_it_breaks="The strings of the value are overwritten by the later data.",
         edits=[("include/veigar/msgpack/v2/parse.hpp", "if(m_used == m_off && detail::get_count(m_buffer) == 1\n       && !static_cast<VisitorHolder&>(*this).visitor().referenced()) {", "if(m_used == m_off && !static_cast<VisitorHolder&>(*this).visitor().referenced()) {")],
         demo="""int main() {
    veigar_msgpack::unpacker u([](veigar_msgpack::type::object_type, std::size_t, void*) { return true; }, nullptr, 64);
    auto feed = [&](const std::string& s) {
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, s);
        u.reserve_buffer(b.size());
        memcpy(u.buffer(), b.data(), b.size());
        u.buffer_consumed(b.size());
        veigar_msgpack::object_handle h;
        REQUIRE(u.next(h), "next");
        return h;
    };
    std::vector<veigar_msgpack::object_handle> hs;
    for (int i = 0; i < 20; i++) hs.push_back(feed(std::string(20, 'a' + i)));
    for (int i = 0; i < 20; i++) REQUIRE(hs[i].get().as<std::string>() == std::string(20, 'a' + i), "value %d became %s", i, hs[i].get().as<std::string>().c_str());
}
"""),
]
