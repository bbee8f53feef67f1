SEEDS = [
    dict(id="q-exact-fill", property="C04",
         needs="A push that fills the queue to the last byte.",
         what_it_breaks="A message that exactly fits into the free space is refused.",
         edits=[("src/message_queue.cpp", """        if (totalFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {""", """        if (totalFree <= dataSize || *pCurMsgNumber == msgMaxNumber_) {""")],
         demo="""int main() {
    MessageQueue q(4, 100);
    REQUIRE(q.create(N("q")), "create");
    std::string a(300, 'a'), b(100, 'b');
    char buf[400];
    int64_t n = 0;
    REQUIRE(q.pushBack(a.data(), 300), "first message");
    REQUIRE(q.pushBack(b.data(), 100), "a message that fits was refused");
    REQUIRE(q.popFront(buf, 400, n) && n == 300 && std::string(buf, 300) == a, "first message");
    REQUIRE(q.popFront(buf, 400, n) && n == 100 && std::string(buf, 100) == b, "second message");
}
"""),
    dict(id="lock-forever", property="C13",
         needs="A process that is killed while it holds the lock of another one's queue, or of its own while others call it.",
         what_it_breaks="Whoever needs the lock waits for ever: the survivors can't shut down any more.",
         edits=[("src/message_queue.cpp", """    return rwLock_->wait(timeoutMS);
""", """    if (rwLock_->wait(timeoutMS)) {
        return true;
    }

    // Under load the lock may be busy for a while, giving up would lose a message.
    veigar::log("Veigar: Warning: Still waiting for the rw-lock.\\n");
    return rwLock_->wait(-1);
""")],
         demo="""int main() {
    Veigar v;
    REQUIRE(v.init(N("a"), 10, 300), "init");
    pid_t p = fork();
    if (p == 0) {
        MessageQueue c(10, 300), r(10, 300);
        if (!c.create(N("x").replace(6, std::to_string((long)getpid()).size(), std::to_string((long)getppid())) + "_call")) _exit(1);
        if (!c.processRWLock(1000)) _exit(1);
        kill(getpid(), SIGKILL);
    }
    int st;
    waitpid(p, &st, 0);
    std::string x;
    DIR* d = opendir("/dev/shm");
    while (dirent* e = readdir(d)) if (strstr(e->d_name, ("vpdemo" + std::to_string((long)getpid())).c_str()) && strstr(e->d_name, "_x_call_shm")) x = e->d_name;
    closedir(d);
    REQUIRE(!x.empty(), "no queue of the dead process");
    x = x.substr(0, x.size() - strlen("_call_shm"));
    CallResult r = v.syncCall(x, 300, "f", 1);
    REQUIRE(!r.isSuccess(), "a dead process answered");
    std::atomic<int> done{0};
    std::thread t([&] { v.uninit(); done = 1; });
    for (int i = 0; i < 80 && !done; i++) ms(100);
    { MessageQueue c(10, 300); c.create(x + "_call"); }
    REQUIRE(done, "uninitialise hangs because of a dead process");
    t.join();
}
"""),
    dict(id="event-unlocked", property="C16",
         needs="Uninitialising while a sender thread looks whether it should stop (a data race).",
         what_it_breaks="The flag is read without the mutex while another thread writes it.",
         edits=[("src/event.cpp", """bool Event::isCancelled() {
    std::unique_lock<std::mutex> ul(m_);
    return isCancelled_;
""", """bool Event::isCancelled() {
    return isCancelled_;
""")],
         cxx="clang++", flags="-fsanitize=thread",
         demo="""#include "event.h"
int main() {
    // what a sender thread does while another thread uninitialises
    for (int i = 0; i < 100; i++) {
        veigar::Event e;
        std::atomic<int> ready{0};
        std::thread w([&]() {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (!e.isCancelled()) {}
        });
        while (ready.load(std::memory_order_relaxed) == 0) {}
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        e.cancel();
        w.join();
    }
}
"""),
    dict(id="unset-uncancels", property="C21",
         needs="Uninitialising in the moment between a sender thread's test whether it should stop and its reset of the event.",
         what_it_breaks="The request to stop is lost: uninitialise never returns.",
         edits=[("src/event.cpp", """void Event::unset() {
    std::unique_lock<std::mutex> ul(m_);
    isSet_ = false;
""", """void Event::unset() {
    std::unique_lock<std::mutex> ul(m_);
    isSet_ = isCancelled_ = false;
""")],
         flags="-Wl,--wrap=pthread_mutex_unlock",
         demo="""#include <pthread.h>
static std::atomic<int> g_slow{0};
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (g_slow) { static thread_local unsigned n = (unsigned)(size_t)&r ^ (unsigned)time(0); n = n * 1103515245 + 12345; if ((n >> 16) % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds((n >> 18) % 500)); }
    return r;
}
int main() {
    std::atomic<int> round{0};
    std::thread([&] { int last = -1; for (;;) { ms(8000); REQUIRE(round != last, "uninitialise hangs"); last = round; } }).detach();
    for (; round < 600; round++) {
        Veigar v;
        v.setTimeoutOfRWLock(5000);
        v.bind("f", [](int x) { return x; });
        REQUIRE(v.init(N("a"), 10, 300), "init");
        g_slow = 1;
        for (int k = 0; k < 3; k++) v.asyncCall(N("a"), 6000, "f", 1);
        v.uninit();
        g_slow = 0;
    }
    _exit(0);
}
"""),
    dict(id="wire-order", property="C19",
         needs="A peer that speaks the documented format without being this version of the library.",
         what_it_breaks="The caller's channel name and the name of the function change places in a call; both sides agree, but not with the documented format.",
         edits=[("include/veigar/veigar.inl", """        auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
""", """        auto callObj = std::make_tuple(0, callId, funcName, curChannelName, argsObj);
"""), ("src/call_dispatcher.cpp", """    callerChannelName = std::get<2>(the_call);
    auto&& funcName = std::get<3>(the_call);
""", """    callerChannelName = std::get<3>(the_call);
    auto&& funcName = std::get<2>(the_call);
""")], count=2,
         demo="""int main() {
    Veigar v;
    v.setTimeoutOfRWLock(5000);
    std::atomic<int> ran{0};
    v.bind("f", [&](int x) { ran += x; return x; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    MessageQueue q(1, 1), back(10, 300);
    REQUIRE(back.create(N("c") + "_resp"), "create");
    REQUIRE(q.open(N("a") + "_call"), "open");
    veigar_msgpack::sbuffer b;
    veigar_msgpack::pack(b, std::make_tuple(0, std::string("id1"), N("c"), std::string("f"), std::make_tuple(7)));
    REQUIRE(q.processRWLock(5000) && q.pushBack(b.data(), (int64_t)b.size()), "push");
    q.notifyRead();
    q.processRWUnlock();
    REQUIRE(back.waitForRead(5000), "no answer to a call in the documented format");
    REQUIRE(ran == 7, "the function was not called");
    v.uninit();
}
"""),
    dict(id="throw-int", property="C03",
         needs="A function that throws something that isn't derived from std::exception.",
         what_it_breaks="The process that serves the function is terminated.",
         edits=[("src/call_dispatcher.cpp", """                                       funcName.c_str(), argsCount, e.what()));
    } catch (...) {
        return Response::MakeResponseWithError(
            callId,
            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                       "The exception is not derived from std::exception. No further information available.",
                                       funcName.c_str(), argsCount));
    }
}
""", """                                       funcName.c_str(), argsCount, e.what()));
    }
}
""")],
         demo="""int main() {
    Veigar v;
    v.setTimeoutOfRWLock(5000);
    v.bind("f", []() { throw 42; });
    REQUIRE(v.init(N("a"), 10, 300), "init");
    CallResult r = v.syncCall(N("a"), 10000, "f");
    REQUIRE(r.obj.get().is_nil() && !r.errorMessage.empty(), "no error");
    v.uninit();
}
"""),
    dict(id="printf-once", property="C03",
         needs="A remote function that throws an exception with a text of more than about 2000 characters.",
         what_it_breaks="The error of the call is empty.",
         edits=[("src/string_helper.cpp", """            const int err = vsnprintf(msgBuf, msgBufSize, format, va_copy);
            if (err >= 0 && err < msgBufSize) {
                ret = true;
                break;
            }

            msgBufSize *= 2;
        } while (true);

        if (ret && msgBuf) {
            output.assign(msgBuf);
        }
""", """            const int err = vsnprintf(msgBuf, msgBufSize, format, va_copy);
            if (err >= 0 && err < msgBufSize) {
                ret = true;
                break;
            }

            msgBufSize *= 2;
        } while (msgBufSize <= 2048);

        if (ret && msgBuf) {
            output.assign(msgBuf);
        }
""")],
         demo="""int main() {
    Veigar v;
    v.setTimeoutOfRWLock(5000);
    const std::string text = std::string(3000, 'x') + "END";
    v.bind("f", [text]() { throw std::runtime_error(text); });
    REQUIRE(v.init(N("a"), 10, 9000), "init");
    CallResult r = v.syncCall(N("a"), 10000, "f");
    REQUIRE(r.errorMessage.find(text) != std::string::npos, "the explanation does not tell the text of the exception: %d characters", (int)r.errorMessage.size());
    v.uninit();
}
"""),
    dict(id="wait-int32", property="C06",
         needs="A timed wait of more than 24.8 days (2^31 ms).",
         what_it_breaks="The wait times out at once instead of waiting.",
         edits=[("src/semaphore.cpp", """        ts.tv_sec += (ms / 1000);
        ts.tv_nsec += ((ms % 1000) * 1000000);
""", """        const int left = static_cast<int>(ms);
        ts.tv_sec += (left / 1000);
        ts.tv_nsec += ((left % 1000) * 1000000);
""")],
         demo="""int main() {
    Semaphore s;
    REQUIRE(s.open(N("s"), 0), "open");
    std::atomic<int> posted{0};
    std::thread t([&] { ms(300); posted = 1; s.release(); });
    bool r = s.wait((int64_t)3000000000LL);
    int p = posted;
    t.join();
    s.close();
    Semaphore::Unlink(N("s"));
    REQUIRE(r && p, "the wait of 3000000 s ended at once");
}
"""),
    dict(id="pack-map-16", property="C12",
         needs="A map of exactly 16 elements.",
         what_it_breaks="It is encoded as an array without elements, the elements follow as further values.",
         edits=[("include/veigar/msgpack/v1/pack.hpp", """    if(n < 16) {
        unsigned char d = static_cast<unsigned char>(0x80u | n);
""", """    if(n <= 16) {
        unsigned char d = static_cast<unsigned char>(0x80u | n);
""")],
         demo="""#include <map>
int main() {
    for (int n = 0; n < 40; n++) {
        std::map<int, std::string> m, r;
        for (int i = 0; i < n; i++) m[i] = std::to_string(i);
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, m);
        try {
            veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
            r = h.get().as<std::map<int, std::string>>();
        } catch (...) { REQUIRE(false, "a map of %d elements can't be decoded", n); }
        REQUIRE(r == m, "a map of %d elements is decoded as another one", n);
    }
}
"""),
    dict(id="chrono-negative", property="C02",
         needs="A time point before 1970 that isn't a whole second.",
         what_it_breaks="Another time point is received than was sent.",
         edits=[("include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp", """                    ++sec;
                    int64_t ns = detail::integral_cast<int64_t>(nanosec) - 1000000000L;
                    detail::add_timestamp(tp, sec, ns);
                }
            }

            v = tp;
""", """                    int64_t ns = detail::integral_cast<int64_t>(nanosec) - 1000000000L;
                    detail::add_timestamp(tp, sec, ns);
                }
            }

            v = tp;
""")],
         demo="""int main() {
    using TP = std::chrono::system_clock::time_point;
    for (long long ns : {0ll, 1000000000ll, 1500000000ll, -1000000000ll, -1500000000ll, -3999999000ll}) {
        TP t{std::chrono::duration_cast<TP::duration>(std::chrono::nanoseconds(ns))}, r;
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, t);
        veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
        h.get().convert(r);
        REQUIRE(r == t, "%lld ns were decoded as another time", ns);
    }
}
"""),
    dict(id="parse-bin8", property="C12",
         needs="Binary data of 128 to 255 bytes.",
         what_it_breaks="The length is taken for a signed number: valid data is rejected.",
         edits=[("include/veigar/msgpack/v2/parse.hpp", """            case MSGPACK_CS_BIN_8: {
                uint8_t tmp;
                load<uint8_t>(tmp, n);
""", """            case MSGPACK_CS_BIN_8: {
                int8_t tmp;
                load<int8_t>(tmp, n);
""")],
         demo="""int main() {
    for (int n : {0, 1, 127, 128, 200, 255, 256, 70000}) {
        std::vector<unsigned char> v((size_t)n, 7), r;
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, v);
        try {
            veigar_msgpack::object_handle h = veigar_msgpack::unpack(b.data(), b.size());
            r = h.get().as<std::vector<unsigned char>>();
        } catch (...) { REQUIRE(false, "binary data of %d bytes can't be decoded", n); }
        REQUIRE(r == v, "binary data of %d bytes is decoded as something else", n);
    }
}
"""),
]
