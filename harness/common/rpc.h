// Helpers of the harnesses that work with Veigar instances.
#pragma once
#include "vp.h"
#include "veigar/veigar.h"
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <thread>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace rpc {
using veigar::Veigar;
using veigar::CallResult;
using veigar::ErrorCode;
using veigar::AsyncCallResult;

// Memory shared with the processes forked later (zero-initialised).
template <typename T>
T* shared(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) vp::discard("no shared memory for the harness");
    return (T*)p;
}

// Waits until f() or ms elapsed.
template <typename F>
bool waitFor(int64_t ms, F f, int64_t stepUs = 300) {
    int64_t end = vp::nowUs() + ms * 1000;
    while (!f()) {
        if (vp::nowUs() > end) return f();
        vp::sleepUs(stepUs);
    }
    return true;
}

inline std::string describe(const CallResult& r) {
    return vp::strf("errCode=%d message='%s'", (int)r.errCode, r.errorMessage.substr(0, 200).c_str());
}

// A process forked by the case (to be started before any thread). fn runs in it; exit status 0 expected.
struct Proc {
    pid_t pid = -1;
    static Proc start(std::function<void()> fn) {
        Proc p;
        p.pid = fork();
        if (p.pid < 0) vp::discard("fork failed");
        if (p.pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            fn();
            _exit(0);
        }
        return p;
    }
    // Exit status, or -signal, or -1000 when it is still running after ms.
    int wait(int64_t ms) {
        int st = 0;
        bool got = false;
        waitFor(ms, [&] { got = waitpid(pid, &st, WNOHANG) == pid; return got; }, 1000);
        if (!got) return -1000;
        pid = -1;
        if (WIFSIGNALED(st)) return -WTERMSIG(st);
        return WEXITSTATUS(st);
    }
    void kill() {
        if (pid > 0) {
            ::kill(pid, SIGKILL);
            int st;
            waitpid(pid, &st, 0);
            pid = -1;
        }
    }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
// Deterministic payload of a call.
inline std::string payload(uint64_t token, int64_t size) {
    std::string s((size_t)(size < 0 ? 0 : size), '\0');
    uint64_t x = vp::mix64(token * 2654435761ull + 12345);
    for (size_t i = 0; i < s.size(); i++) {
        if ((i & 7) == 0) x = vp::mix64(x + i);
        s[i] = (char)(x >> ((i & 7) * 8));
    }
    return s;
}
}  // namespace rpc
