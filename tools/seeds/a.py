SEEDS = [
    dict(id="pack-str-64k", property="C12",
         needs="A string of exactly 65536 bytes.",
         what_it_breaks="Its length is stored in 16 bits: what is decoded is an empty string followed by garbage.",
         edits=[("include/veigar/msgpack/v1/pack.hpp", """    } else if(l < 65536) {
        char buf[3];
        buf[0] = static_cast<char>(0xdau); _msgpack_store16(&buf[1], static_cast<uint16_t>(l));
        append_buffer(buf, 3);
    } else {
        char buf[5];
        buf[0] = static_cast<char>(0xdbu); _msgpack_store32(&buf[1], static_cast<uint32_t>(l));
        append_buffer(buf, 5);
    }
    return *this;
}

template <typename Stream>
inline packer<Stream>& packer<Stream>::pack_str_body(""", """    } else if(l <= 65536) {
        char buf[3];
        buf[0] = static_cast<char>(0xdau); _msgpack_store16(&buf[1], static_cast<uint16_t>(l));
        append_buffer(buf, 3);
    } else {
        char buf[5];
        buf[0] = static_cast<char>(0xdbu); _msgpack_store32(&buf[1], static_cast<uint32_t>(l));
        append_buffer(buf, 5);
    }
    return *this;
}

template <typename Stream>
inline packer<Stream>& packer<Stream>::pack_str_body(""")],
         demo="""int main() {
    for (size_t n : {65535u, 65536u, 65537u}) {
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, std::string(n, 'x'));
        veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
        REQUIRE(h.get().as<std::string>().size() == n, "a string of %zu bytes does not survive", n);
    }
}
"""),
    dict(id="uuid-per-process", property="C22",
         needs="Two instances in one process, or processes forked after the first initialisation.",
         what_it_breaks="All instances of a process (and of its forked children) share one uuid, their call ids coincide.",
         edits=[("src/veigar.cpp", "            uuid_ = UUID::Create();\n", "            static const std::string processUuid = UUID::Create();\n            uuid_ = processUuid;\n")],
         demo="""int main() {
    Veigar a, b;
    REQUIRE(a.init(N("a"), 20, 300) && b.init(N("b"), 20, 300), "init");
    std::string x = a.asyncCall(N("nobody"), 1000, "f")->first, y = b.asyncCall(N("nobody"), 1000, "f")->first;
    a.uninit();
    b.uninit();
    REQUIRE(x != y, "two instances use the call id %s", x.c_str());
}
"""),
    dict(id="release-unlocked", property="C16",
         needs="releaseCall in one thread while another one starts or completes calls.",
         what_it_breaks="The table of ongoing calls is modified without its mutex: a data race that corrupts it.",
         edits=[("src/resp_dispatcher.cpp", """void RespDispatcher::releaseCall(const std::string& callId) {
    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
    auto it = ongoingCalls_.find(callId);
    if (it != ongoingCalls_.cend()) {
""", """void RespDispatcher::releaseCall(const std::string& callId) {
    auto it = ongoingCalls_.find(callId);
    if (it != ongoingCalls_.cend()) {
        std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
""")],
         flags="-fsanitize=thread", cxx="clang++",
         demo="""int main() {
    Veigar a;
    a.setTimeoutOfRWLock(20000);
    a.bind("f", [](int x) { return x; });
    REQUIRE(a.init(N("a"), 50, 300), "init");
    std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int k = 0; k < 200; k++) a.syncCall(N("a"), 60000, "f", k); });
    for (auto& x : t) x.join();
    a.uninit();
}
"""),
    dict(id="steal-lock", property="C05",
         needs="A participant that holds the lock of a queue for longer than three lock timeouts of another one.",
         what_it_breaks="After three timeouts in a row the lock is considered abandoned and entered: two participants are inside.",
         edits=[("src/message_queue.cpp", """    if (!rwLock_)
        return false;
    return rwLock_->wait(timeoutMS);
}
""", """    if (!rwLock_)
        return false;
    if (rwLock_->wait(timeoutMS)) {
        lockTimeouts_ = 0;
        return true;
    }

    // The holder has most likely died, take over its lock.
    return ++lockTimeouts_ % 3 == 0;
}
"""), ("src/message_queue.h", "    int32_t msgMaxNumber_ = 0;\n", "    int32_t msgMaxNumber_ = 0;\n    int32_t lockTimeouts_ = 0;\n")],
         demo="""int main() {
    MessageQueue a(4, 100), b(1, 1);
    REQUIRE(a.create(N("q")) && b.open(N("q")), "open");
    REQUIRE(a.processRWLock(1000), "lock");
    for (int i = 0; i < 10; i++) REQUIRE(!b.processRWLock(20), "the lock is held twice");
}
"""),
    dict(id="resp-swapped", property="C19",
         needs="A peer that speaks the documented format without being this library, or looking at the bytes.",
         what_it_breaks="Both sides agree on answers [1, id, result, error] instead of [1, id, error, result].",
         edits=[("src/response.cpp", """                  error_ ? error_->get() : veigar_msgpack::object(),
                  result_ ? result_->get() : veigar_msgpack::object());
""", """                  result_ ? result_->get() : veigar_msgpack::object(),
                  error_ ? error_->get() : veigar_msgpack::object());
"""), ("src/resp_dispatcher.cpp", "auto&& error_obj = std::get<2>(r);", "auto&& error_obj = std::get<3>(r);"),
                ("src/resp_dispatcher.cpp", "callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));", "callRet.obj = std::move(veigar_msgpack::clone(std::get<2>(r)));")],
         demo="""int main() {
    Veigar a;
    a.bind("f", [](int x) { return x + 1; });
    REQUIRE(a.init(N("a"), 20, 300), "init");
    MessageQueue call(1, 1), resp(20, 300);
    REQUIRE(resp.create(N("me") + "_resp") && call.open(N("a") + "_call"), "queues");
    veigar_msgpack::sbuffer b;
    veigar_msgpack::pack(b, std::make_tuple(0, std::string("id"), N("me"), std::string("f"), std::make_tuple(41)));
    REQUIRE(call.processRWLock(1000) && call.pushBack(b.data(), b.size()), "push");
    call.notifyRead();
    call.processRWUnlock();
    REQUIRE(resp.waitForRead(5000) && resp.processRWLock(1000), "no answer");
    char buf[300];
    int64_t n = 0;
    REQUIRE(resp.popFront(buf, 300, n), "pop");
    resp.processRWUnlock();
    auto h = veigar_msgpack::unpack(buf, (size_t)n);
    a.uninit();
    auto& o = h.get().via.array;
    REQUIRE(o.size == 4 && o.ptr[2].is_nil() && o.ptr[3].type == veigar_msgpack::type::POSITIVE_INTEGER && o.ptr[3].via.u64 == 42, "the answer is not [1, id, nil, 42]");
}
"""),
    dict(id="call-flag", property="C11",
         needs="A message in the call queue with another flag than 0, otherwise formed like a call.",
         what_it_breaks="A message that is not a call is executed.",
         edits=[("src/call_dispatcher.cpp", "    if (type != 0) {\n", "    if (type < 0) {\n")],
         demo="""int main() {
    Veigar a;
    std::atomic<int> runs{0};
    a.bind("f", [&](int x) { runs++; return x + 1; });
    REQUIRE(a.init(N("a"), 20, 300), "init");
    MessageQueue call(1, 1);
    REQUIRE(call.open(N("a") + "_call"), "queue");
    for (int flag : {1, 2, 127}) {
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, std::make_tuple(flag, std::string("id"), N("a"), std::string("f"), std::make_tuple(41)));
        REQUIRE(call.processRWLock(1000) && call.pushBack(b.data(), b.size()), "push");
        call.notifyRead();
        call.processRWUnlock();
    }
    a.syncCall(N("a"), 5000, "g");
    ms(200);
    a.uninit();
    REQUIRE(runs == 0, "a message with a wrong flag ran the function");
}
"""),
    dict(id="what-as-format", property="C03",
         needs="A remote function that throws an exception whose text contains printf directives.",
         what_it_breaks="The text is used as a format string: the error is garbled or the target crashes.",
         edits=[("src/call_dispatcher.cpp", """            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                       "The exception contained this information: %s.",
                                       funcName.c_str(), argsCount, e.what()));
""", """            StringHelper::StringPrintf(("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception contained this information: " + std::string(e.what()) + ".").c_str(),
                                       funcName.c_str(), argsCount));
""")],
         demo="""int main() {
    Veigar a;
    a.bind("f", []() { throw std::runtime_error("50%s done, %s%s%s%n"); });
    REQUIRE(a.init(N("a"), 20, 1000), "init");
    CallResult r = a.syncCall(N("a"), 5000, "f");
    a.uninit();
    REQUIRE(!r.isSuccess() && r.errorMessage.find("50%s done") != std::string::npos, "the error does not say what was thrown: %s", r.errorMessage.c_str());
}
"""),
    dict(id="wait-zero", property="C06",
         needs="A timed wait with a timeout of zero on an empty semaphore.",
         what_it_breaks="It waits for ever instead of failing at once.",
         edits=[("src/semaphore.cpp", "    if (ms >= 0) {\n        timespec ts;\n", "    if (ms > 0) {\n        timespec ts;\n")],
         timeout=20,
         demo="""int main() {
    Semaphore s;
    REQUIRE(s.open(N("s"), 1, 1), "open");
    sem_unlink(N("s").c_str());
    REQUIRE(s.wait(0), "a unit is available");
    REQUIRE(!s.wait(0), "no unit is available");
}
"""),
    dict(id="space-tail", property="C08",
         needs="More bytes than the queue holds must have passed through it without it ever being refilled up to its end.",
         what_it_breaks="Only the space behind the last message counts as free: a queue that was used up once reports full for ever although it is empty.",
         edits=[("src/message_queue.cpp", """        if (totalFree < dataSize) {
            break;
        }

        result = true;
""", """        if (totalFree - *pFrontFree < dataSize) {
            break;
        }

        result = true;
""")],
         demo="""int main() {
    Veigar a;
    a.setTimeoutOfRWLock(1000);
    a.bind("f", [](std::string s) { return s; });
    REQUIRE(a.init(N("a"), 10, 300), "init");
    for (int i = 0; i < 100; i++) {
        CallResult r = a.syncCall(N("a"), 3000, "f", std::string(100, 'x'));
        REQUIRE(r.isSuccess(), "call %d fails: %s", i, r.errorMessage.c_str());
    }
    a.uninit();
}
"""),
]
