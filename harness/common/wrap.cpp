#include "wrap.h"
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

namespace vpw {
static std::atomic<int> g_permille{0};
static std::atomic<int> g_maxUs{0};
static std::atomic<uint64_t> g_seed{0};
static std::atomic<uint64_t> g_tid{0};
static std::atomic<int64_t> g_steps{0}, g_killAt{0};
static std::atomic<bool> g_killAfter{false};
static std::atomic<int> g_mask{0}, g_err{0};
static std::atomic<int64_t> g_failN{0}, g_failCount{0}, g_res{0}, g_failed{0};
static std::atomic<const char*> g_last{""};

void perturb(uint64_t seed, int permille, int maxUs) {
    g_seed = seed;
    g_maxUs = maxUs;
    g_permille = permille;
}
void perturbOff() { g_permille = 0; }
void killAtStep(int64_t n, bool after) {
    g_killAt = 0;
    g_steps = 0;
    g_killAfter = after;
    g_killAt = n;
}
int64_t steps() { return g_steps; }
void resetSteps() { g_steps = 0; }
void failAt(int mask, int64_t n, int64_t count, int err) {
    g_res = 0;
    g_failed = 0;
    g_failN = n;
    g_failCount = count;
    g_err = err;
    g_mask = mask;
}
void failOff() { g_mask = 0; }
int64_t resCalls() { return g_res; }
int64_t failedCalls() { return g_failed; }
const char* lastFailed() { return g_last; }

static void pause() {
    int pm = g_permille.load(std::memory_order_relaxed);
    if (pm <= 0) return;
    static thread_local uint64_t st = 0;
    if (!st) st = vp::mix64(g_seed.load() + 77 * g_tid.fetch_add(1)) | 1;
    st = vp::mix64(st);
    if ((int)(st % 1000) >= pm) return;
    uint64_t r = vp::mix64(st ^ 0x1234);
    int kind = (int)(r % 4);
    int saved = errno;
    if (kind == 0) sched_yield();
    else {
        int mx = g_maxUs.load(std::memory_order_relaxed);
        int us = (int)((r >> 8) % (uint64_t)(mx < 1 ? 1 : mx));
        if (kind == 1) us /= 10;
        timespec ts = {0, us * 1000L};
        if (us >= 1000000) { ts.tv_sec = us / 1000000; ts.tv_nsec = (us % 1000000) * 1000L; }
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    errno = saved;
}
struct Step {
    int64_t die = 0;   // the step that is fatal once it is done, unless disarmed meanwhile
    Step() {
        pause();
        int64_t n = g_steps.fetch_add(1) + 1;
        if (g_killAt.load(std::memory_order_relaxed) == n) {
            if (!g_killAfter) syscall(SYS_kill, getpid(), SIGKILL);
            die = n;
        }
    }
    ~Step() {
        if (die && g_killAt.load() == die) syscall(SYS_kill, getpid(), SIGKILL);
        pause();
    }
};
// --- which queue locks (semaphores named *_rwlock) the threads of this process may hold ---
static std::atomic<char*> g_trace{nullptr};
static std::atomic<int> g_traceN{0}, g_traceNext{0};
static std::atomic<sem_t*> g_semP[256];
static char g_semName[256][kLockName];
static std::atomic<int> g_semLock{0};
void traceLocks(char* table, int n) {
    g_traceNext = 0;
    g_traceN = n;
    g_trace = table;
}
static void semNamed(sem_t* s, const char* name) {
    size_t l = strlen(name);
    if (l < 7 || strcmp(name + l - 7, "_rwlock")) name = "";
    while (g_semLock.exchange(1)) sched_yield();
    int slot = -1;
    for (int i = 0; i < 256; i++) {
        sem_t* p = g_semP[i].load();
        if (p == s) { slot = i; break; }
        if (!p && slot < 0) slot = i;
    }
    if (slot >= 0) {
        snprintf(g_semName[slot], kLockName, "%s", name);
        g_semP[slot] = s;
    }
    g_semLock = 0;
}
static char* lockSlot(sem_t* s, const char** name) {
    char* tab = g_trace.load(std::memory_order_relaxed);
    if (!tab) return nullptr;
    for (int i = 0; i < 256; i++) {
        if (g_semP[i].load(std::memory_order_relaxed) != s) continue;
        if (!g_semName[i][0]) return nullptr;
        *name = g_semName[i];
        static thread_local int mine = -1;
        if (mine < 0) mine = g_traceNext.fetch_add(1);
        return mine < g_traceN ? tab + mine * kLockName : nullptr;
    }
    return nullptr;
}
struct Locking {   // around a wait
    const char* name = nullptr;   // before slot: lockSlot sets it
    char* slot;
    explicit Locking(sem_t* s) : slot(lockSlot(s, &name)) { if (slot) snprintf(slot, kLockName, "%s", name); }
    int done(int r) { if (slot && r != 0) slot[0] = 0; return r; }
};
struct Unlocking {   // around a post
    const char* name = nullptr;   // before slot: lockSlot sets it
    char* slot;
    explicit Unlocking(sem_t* s) : slot(lockSlot(s, &name)) {}
    int done(int r) { if (slot) slot[0] = 0; return r; }
};
static bool inject(int kind, const char* name) {
    if (!(g_mask.load() & kind)) return false;
    int64_t n = g_res.fetch_add(1) + 1;
    int64_t f = g_failN.load();
    if (f > 0 && n >= f && n < f + g_failCount.load()) {
        g_failed++;
        g_last = name;
        errno = g_err.load();
        return true;
    }
    return false;
}
bool injectThread() { return inject(THREAD, "pthread_create"); }
int injectErr() { return g_err; }
}  // namespace vpw

using vpw::Step;
using vpw::inject;
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
extern "C" {
REAL(int, sem_wait, sem_t* s) { Step st; vpw::Locking l(s); return l.done(__real_sem_wait(s)); }
REAL(int, sem_trywait, sem_t* s) { Step st; vpw::Locking l(s); return l.done(__real_sem_trywait(s)); }
REAL(int, sem_timedwait, sem_t* s, const struct timespec* t) { Step st; vpw::Locking l(s); return l.done(__real_sem_timedwait(s, t)); }
REAL(int, sem_clockwait, sem_t* s, clockid_t c, const struct timespec* t) { Step st; vpw::Locking l(s); return l.done(__real_sem_clockwait(s, c, t)); }
REAL(int, sem_post, sem_t* s) { Step st; vpw::Unlocking l(s); return l.done(__real_sem_post(s)); }
REAL(int, pthread_mutex_lock, pthread_mutex_t* m) { vpw::pause(); return __real_pthread_mutex_lock(m); }
REAL(int, pthread_mutex_unlock, pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); vpw::pause(); return r; }
sem_t* __real_sem_open(const char* n, int fl, ...);
sem_t* __wrap_sem_open(const char* n, int fl, ...) {
    Step st;
    if (inject(vpw::SEM_OPEN, "sem_open")) return SEM_FAILED;
    if (fl & O_CREAT) {
        va_list ap;
        va_start(ap, fl);
        mode_t m = va_arg(ap, mode_t);
        unsigned v = va_arg(ap, unsigned);
        va_end(ap);
        sem_t* s = __real_sem_open(n, fl, m, v);
        if (s != SEM_FAILED) vpw::semNamed(s, n);
        return s;
    }
    sem_t* s = __real_sem_open(n, fl);
    if (s != SEM_FAILED) vpw::semNamed(s, n);
    return s;
}
REAL(int, sem_close, sem_t* s) { Step st; return __real_sem_close(s); }
REAL(int, sem_unlink, const char* n) { Step st; return __real_sem_unlink(n); }
REAL(int, shm_open, const char* n, int fl, mode_t m) {
    Step st;
    if (inject(vpw::SHM_OPEN, "shm_open")) return -1;
    return __real_shm_open(n, fl, m);
}
REAL(int, shm_unlink, const char* n) { Step st; return __real_shm_unlink(n); }
REAL(int, ftruncate, int fd, off_t l) {
    Step st;
    if (inject(vpw::FTRUNCATE, "ftruncate")) return -1;
    return __real_ftruncate(fd, l);
}
REAL(int, ftruncate64, int fd, off_t l) {
    Step st;
    if (inject(vpw::FTRUNCATE, "ftruncate")) return -1;
    return __real_ftruncate64(fd, l);
}
REAL(void*, mmap, void* a, size_t l, int p, int f, int fd, off_t o) {
    Step st;
    if (inject(vpw::MMAP, "mmap")) return MAP_FAILED;
    return __real_mmap(a, l, p, f, fd, o);
}
REAL(void*, mmap64, void* a, size_t l, int p, int f, int fd, off_t o) {
    Step st;
    if (inject(vpw::MMAP, "mmap")) return MAP_FAILED;
    return __real_mmap64(a, l, p, f, fd, o);
}
REAL(int, munmap, void* a, size_t l) { Step st; return __real_munmap(a, l); }
REAL(int, fstat, int fd, struct stat* b) {
    Step st;
    if (inject(vpw::FSTAT, "fstat")) return -1;
    return __real_fstat(fd, b);
}
REAL(int, fstat64, int fd, struct stat* b) {
    Step st;
    if (inject(vpw::FSTAT, "fstat")) return -1;
    return __real_fstat64(fd, b);
}
}
