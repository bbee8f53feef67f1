#include "vp.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <mutex>
#include <sstream>
#include <unordered_set>

__attribute__((weak)) bool vpValid(const vp::Case&) { return true; }

namespace vp {

// ------------------------------------------------------------------ utilities
uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t Rng::next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
int64_t Rng::range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    if (span == 0) return (int64_t)next();
    return (int64_t)((uint64_t)lo + next() % span);
}
int64_t Rng::small(int64_t maxv) {
    if (maxv <= 0) return 0;
    int bits = 0;
    while ((maxv >> bits) != 0 && bits < 62) bits++;
    int b = (int)range(0, bits);
    int64_t v = (b == 0) ? 0 : (int64_t)(next() & ((1ull << b) - 1));
    return v > maxv ? maxv : v;
}
int Rng::weighted(const std::vector<int>& w) {
    int64_t tot = 0;
    for (int x : w) tot += x;
    int64_t r = below(tot);
    for (size_t i = 0; i < w.size(); i++) {
        if (r < w[i]) return (int)i;
        r -= w[i];
    }
    return (int)w.size() - 1;
}
std::string Rng::bytes(size_t n, int mode) {
    std::string r;
    r.reserve(n);
    for (size_t i = 0; i < n; i++) {
        uint64_t x = next();
        if (mode == 1) r.push_back((char)('a' + x % 26));
        else r.push_back((char)(x & 0xff));
    }
    return r;
}
int64_t nowUs() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
void sleepUs(int64_t us) {
    if (us <= 0) return;
    timespec ts = {(time_t)(us / 1000000), (long)((us % 1000000) * 1000)};
    while (nanosleep(&ts, &ts) != 0 && errno == EINTR) {}
}
std::string strf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char* p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string r = n >= 0 ? std::string(p, (size_t)n) : std::string();
    free(p);
    return r;
}
std::string hex(const std::string& s, size_t maxBytes) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < maxBytes; i++) {
        snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
        r += b;
    }
    if (s.size() > maxBytes) r += strf("..(%zu bytes)", s.size());
    return r;
}
static int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
std::string Case::encode() const {
    std::string r;
    for (auto& kv : cfg) r += "cfg " + kv.first + " " + std::to_string((long long)kv.second) + "\n";
    for (auto& o : ops) {
        r += "op " + o.k;
        for (auto x : o.a) r += " " + std::to_string((long long)x);
        if (!o.s.empty()) r += " s:" + hex(o.s, (size_t)-1);
        r += "\n";
    }
    return r;
}
bool Case::decode(const std::string& text, Case& out) {
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string kind;
        ls >> kind;
        if (kind == "cfg") {
            std::string k;
            long long v;
            if (!(ls >> k >> v)) return false;
            out.cfg[k] = v;
        } else if (kind == "op") {
            Op o;
            if (!(ls >> o.k)) return false;
            std::string tok;
            while (ls >> tok) {
                if (tok.compare(0, 2, "s:") == 0) {
                    for (size_t i = 2; i + 1 < tok.size(); i += 2) o.s.push_back((char)(hexv(tok[i]) * 16 + hexv(tok[i + 1])));
                } else {
                    o.a.push_back(strtoll(tok.c_str(), nullptr, 10));
                }
            }
            out.ops.push_back(o);
        } else {
            return false;
        }
    }
    return true;
}
uint64_t Case::hash() const {
    std::string e = encode();
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : e) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}
std::vector<std::string> shmNames(const std::string& s) {
    std::vector<std::string> r;
    DIR* d = opendir("/dev/shm");
    if (!d) return r;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != ".." && n.find(s) != std::string::npos) r.push_back(n);
    }
    closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}

// ------------------------------------------------------------------ child side
static int g_fd = -1;
static pid_t g_childPid = 0;
static std::mutex g_mu;
static std::string g_prefix;
static uint64_t g_seed;
static bool g_replay = false;

static void sendRec(char type, const std::string& payload) {
    // One write per record (length-prefixed), so that records of several threads do not mix.
    std::string rec;
    rec.push_back(type);
    uint32_t n = (uint32_t)payload.size();
    rec.append((const char*)&n, 4);
    rec += payload;
    size_t off = 0;
    while (off < rec.size()) {
        ssize_t w = ::write(g_fd, rec.data() + off, rec.size() - off);
        if (w < 0) {
            if (errno == EINTR) continue;
            break;
        }
        off += (size_t)w;
    }
}
static void sendLocked(char type, const std::string& payload) {
    std::lock_guard<std::mutex> lg(g_mu);
    sendRec(type, payload);
}
static void finish(char type, const std::string& payload) {
    g_mu.lock();  // never released: the first verdict wins
    sendRec(type, payload);
    _exit(type == 'F' || type == 'T' ? 41 : 42);
}
void fail(const std::string& msg) { finish('F', std::string("-\n") + msg.substr(0, 3500)); abort(); }
void failSig(const std::string& sig, const std::string& msg) { finish('F', sig + "\n" + msg.substr(0, 3500)); abort(); }
void failTiming(const std::string& msg) { finish('T', std::string("-\n") + msg.substr(0, 3500)); abort(); }
void discard(const std::string& why) { finish('D', why); abort(); }
void label(const std::string& l) { sendLocked('L', l); }
void nontrivial() { sendLocked('N', ""); }
void metric(const std::string& name, int64_t add) { sendLocked('M', name + " " + std::to_string((long long)add)); }
void phase(const std::string& p) { sendLocked('P', p); }
std::string prefix() { return g_prefix; }
uint64_t caseSeed() { return g_seed; }
bool replaying() { return g_replay; }

// ------------------------------------------------------------------ parent side
struct Outcome {
    enum K { OK, FAIL, TIMING, CRASH, HANG, DISCARD, INCONCLUSIVE } k = OK;
    std::string sig, msg;
    std::vector<std::string> labels;
    std::map<std::string, int64_t> metrics;
    bool nontriv = false;
    bool bad() const { return k == FAIL || k == TIMING || k == CRASH || k == HANG; }
    bool hard() const { return k == FAIL || k == CRASH || k == HANG; }
};
static const char* kname(Outcome::K k) {
    static const char* n[] = {"ok", "fail", "timing", "crash", "hang", "discard", "inconclusive"};
    return n[k];
}

static Info g_info;
static std::string g_work;
static int64_t g_serial = 0;
static bool g_verbose = false;

static void cleanShm(const std::string& pfx) {
    for (auto& n : shmNames(pfx)) unlink(("/dev/shm/" + n).c_str());
}
static void reapAll() {
    while (waitpid(-1, nullptr, WNOHANG) > 0) {}
}
static std::string readFile(const std::string& f, size_t maxn) {
    std::ifstream in(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (s.size() > maxn) s = s.substr(0, maxn);
    return s;
}
static std::string crashSummary(const std::string& err) {
    // keep the interesting part of a sanitizer report
    size_t p = err.find("==ERROR");
    if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = err.find("runtime error:");
    if (p == std::string::npos) p = err.find("terminate called");
    if (p == std::string::npos) return err.size() > 600 ? err.substr(err.size() - 600) : err;
    if (p > 100) p -= 100; else p = 0;
    return err.substr(p, 3500);
}

// Runs cases[from..) in one child; results are appended. Returns the number of finished cases (the last may be bad).
static size_t runBatch(const std::vector<Case>& cases, const std::vector<uint64_t>& seeds, size_t from, std::vector<Outcome>& out) {
    int pfd[2];
    if (pipe2(pfd, O_CLOEXEC) != 0) { perror("pipe"); exit(3); }
    fcntl(pfd[1], F_SETPIPE_SZ, 1 << 20);
    std::string errFile = g_work + "/stderr";
    int64_t serial = g_serial;
    g_serial += (int64_t)(cases.size() - from);
    std::string base = strf("vp%d_", (int)getpid());
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(pfd[0]);
        g_fd = pfd[1];
        g_childPid = getpid();
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0);
        if (!g_verbose) dup2(nul, 1);
        int ef = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        if (!g_verbose) dup2(ef, 2);
        close(ef);
        close(nul);
        rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGPIPE, SIG_IGN);
        for (size_t i = from; i < cases.size(); i++) {
            g_prefix = strf("%s%lld_", base.c_str(), (long long)(serial + (int64_t)(i - from)));
            g_seed = seeds[i];
            sendLocked('B', std::to_string(i));
            vpRun(cases[i]);
            sendLocked('E', std::to_string(i));
        }
        g_mu.lock();
        _exit(0);
    }
    setpgid(pid, pid);
    close(pfd[1]);
    std::string buf;
    Outcome cur;
    bool inCase = false, verdict = false, eof = false;
    std::string ph;
    size_t done = 0;
    int64_t ticks = 0;  // observed milliseconds of the current case; long gaps (machine stalls) count as 100 ms
    int64_t last = nowUs();
    bool killedByUs = false, exited = false;
    int status = 0;
    char tmp[65536];
    while (!eof) {
        pollfd pf = {pfd[0], POLLIN, 0};
        int pr = poll(&pf, 1, exited ? 0 : 10);
        int64_t n = nowUs();
        int64_t d = (n - last) / 1000;
        if (d > 0) { last = n; ticks += std::min<int64_t>(d, 100); }
        if (pr > 0) {
            ssize_t r = read(pfd[0], tmp, sizeof tmp);
            if (r > 0) buf.append(tmp, (size_t)r);
            else eof = true;
            size_t off = 0;
            while (buf.size() - off >= 5) {
                uint32_t len;
                memcpy(&len, buf.data() + off + 1, 4);
                if (buf.size() - off < 5 + (size_t)len) break;
                char t = buf[off];
                std::string pl = buf.substr(off + 5, len);
                off += 5 + (size_t)len;
                switch (t) {
                    case 'B': cur = Outcome(); inCase = true; ticks = 0; ph.clear(); break;
                    case 'E': out.push_back(cur); inCase = false; done++; break;
                    case 'L': cur.labels.push_back(pl); break;
                    case 'N': cur.nontriv = true; break;
                    case 'P': ph = pl; break;
                    case 'M': {
                        size_t sp = pl.rfind(' ');
                        cur.metrics[pl.substr(0, sp)] += atoll(pl.c_str() + sp + 1);
                        break;
                    }
                    case 'F': case 'T': case 'D': {
                        if (verdict) break;
                        verdict = true;
                        if (t == 'D') { cur.k = Outcome::DISCARD; cur.msg = pl; }
                        else {
                            cur.k = t == 'F' ? Outcome::FAIL : Outcome::TIMING;
                            size_t nl = pl.find('\n');
                            cur.sig = pl.substr(0, nl);
                            cur.msg = pl.substr(nl + 1);
                        }
                        break;
                    }
                }
            }
            buf.erase(0, off);
            if (verdict) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                if (!exited) waitpid(pid, &status, 0);
                exited = true;
                break;
            }
        } else if (exited) {
            break;  // grandchildren may hold the pipe open
        }
        if (!exited && !eof) {
            pid_t w = waitpid(pid, &status, WNOHANG);
            if (w == pid) { exited = true; }
            else if (ticks > g_info.watchdogMs) {
                killedByUs = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                exited = true;
                break;
            }
        }
    }
    if (!exited) {
        // pipe closed: normal exit expected shortly
        int64_t t0 = nowUs();
        for (;;) {
            pid_t w = waitpid(pid, &status, WNOHANG);
            if (w == pid) break;
            if (nowUs() - t0 > (g_info.watchdogMs + 5000) * 1000) { killedByUs = true; kill(-pid, SIGKILL); waitpid(pid, &status, 0); break; }
            sleepUs(200);
        }
    }
    kill(-pid, SIGKILL);
    close(pfd[0]);
    reapAll();
    if (done < cases.size() - from || verdict || (!inCase && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))) {
        if (verdict) {
            // already set
        } else if (killedByUs) {
            cur.k = g_info.hangIsFailure ? Outcome::HANG : Outcome::INCONCLUSIVE;
            cur.msg = strf("the case did not finish within %lld ms (phase: %s)", (long long)g_info.watchdogMs, ph.c_str());
        } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
            cur.k = Outcome::INCONCLUSIVE;
            cur.msg = "killed from outside";
        } else {
            cur.k = Outcome::CRASH;
            std::string how = WIFSIGNALED(status) ? strf("signal %d", WTERMSIG(status)) : strf("exit status %d", WEXITSTATUS(status));
            cur.msg = "the process died: " + how + " (phase: " + ph + ")\n" + crashSummary(readFile(errFile, 200000));
        }
        if (!inCase && !verdict && done == cases.size() - from && done > 0) {
            // died after the last case (for instance a sanitizer report at exit): blame the last case
            Outcome o = cur;
            o.labels = out.back().labels;
            out.pop_back();
            out.push_back(o);
        } else {
            out.push_back(cur);
            done++;
        }
    }
    cleanShm(base);
    return done;
}

static Outcome runOne(const Case& c, uint64_t seed) {
    std::vector<Outcome> o;
    runBatch(std::vector<Case>(1, c), std::vector<uint64_t>(1, seed), 0, o);
    if (o.empty()) { Outcome x; x.k = Outcome::INCONCLUSIVE; return x; }
    return o[0];
}

static std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

// ------------------------------------------------------------------ shrinking
struct Shrinker {
    uint64_t seed;
    std::string sig;
    int attempts;
    int64_t deadline;
    int runs = 0;
    Outcome lastBad;
    bool stillBad(const Case& c) {
        if (nowUs() > deadline || !vpValid(c)) return false;
        for (int i = 0; i < attempts && nowUs() < deadline; i++) {
            runs++;
            Outcome o = runOne(c, seed);
            if (o.hard() && o.sig == sig) { lastBad = o; return true; }
        }
        return false;
    }
    Case shrink(Case c) {
        bool progress = true;
        while (progress && nowUs() < deadline) {
            progress = false;
            for (size_t n = std::max<size_t>(1, c.ops.size() / 2); n >= 1 && nowUs() < deadline; n /= 2) {
                for (size_t i = 0; i + n <= c.ops.size() && nowUs() < deadline;) {
                    Case d = c;
                    d.ops.erase(d.ops.begin() + (long)i, d.ops.begin() + (long)(i + n));
                    if (stillBad(d)) { c = d; progress = true; }
                    else i += n;
                }
                if (n == 1) break;
            }
            for (auto it = c.cfg.begin(); it != c.cfg.end(); ++it) progress |= shrinkInt(c, it->second);
            for (size_t i = 0; i < c.ops.size(); i++) {
                for (size_t j = 0; j < c.ops[i].a.size(); j++) progress |= shrinkInt(c, c.ops[i].a[j]);
                while (!c.ops[i].s.empty() && nowUs() < deadline) {
                    std::string old = c.ops[i].s;
                    c.ops[i].s = old.substr(0, old.size() / 2);
                    if (stillBad(c)) { progress = true; continue; }
                    c.ops[i].s = old.substr(0, old.size() - 1);
                    if (stillBad(c)) { progress = true; continue; }
                    c.ops[i].s = old;
                    break;
                }
            }
        }
        return c;
    }
    bool shrinkInt(Case& c, int64_t& v) {
        bool any = false;
        for (;;) {
            int64_t old = v;
            bool ok = false;
            int64_t cand[] = {0, 1, old / 2, old - (old > 0 ? 1 : -1)};
            for (int64_t x : cand) {
                if (x == old || (x < 0) != (old < 0 && x != 0)) { if (x == old) continue; }
                if ((x < 0 ? -x : x) >= (old < 0 ? -old : old)) continue;
                if (nowUs() > deadline) return any;
                v = x;
                if (stillBad(c)) { ok = true; break; }
                v = old;
            }
            if (!ok) return any;
            any = true;
        }
    }
};

static void writeFile(const std::string& f, const std::string& s) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << s;
}
static std::string replayText(const Case& c, uint64_t seed, const Outcome& o) {
    std::string r = "# property " + g_info.id + "\n# verdict " + kname(o.k) + "\n# signature " + (o.sig.empty() ? "-" : o.sig) + "\n";
    std::istringstream in(o.msg);
    std::string line;
    while (std::getline(in, line)) r += "# | " + line + "\n";
    r += "# caseseed " + std::to_string((unsigned long long)seed) + "\n";
    return r + c.encode();
}

int realMain(int argc, char** argv) {
    int64_t seed = 1, budgetMs = 10000, maxCases = 1ll << 60, firstIdx = 0;
    bool thorough = false;
    std::string outFile, replay, known;
    int repeat = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = atoll(val().c_str());
        else if (a == "--budget-ms") budgetMs = atoll(val().c_str());
        else if (a == "--max-cases") maxCases = atoll(val().c_str());
        else if (a == "--first") firstIdx = atoll(val().c_str());
        else if (a == "--work") g_work = val();
        else if (a == "--out") outFile = val();
        else if (a == "--replay") replay = val();
        else if (a == "--repeat") repeat = atoi(val().c_str());
        else if (a == "--known") known = val();  // comma separated signatures
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") g_verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    vpInfo(g_info);
    if (g_work.empty()) {
        g_work = strf("/tmp/vpwork.%d", (int)getpid());
    }
    mkdir(g_work.c_str(), 0700);
    std::set<std::string> knownSigs;
    {
        std::istringstream ks(known);
        std::string k;
        while (std::getline(ks, k, ',')) if (!k.empty()) knownSigs.insert(k);
    }

    if (!replay.empty()) {
        g_replay = true;
        std::string text = readFile(replay, (size_t)-1);
        Case c;
        if (!Case::decode(text, c)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        uint64_t cs = 1;
        size_t p = text.find("# caseseed ");
        if (p != std::string::npos) cs = strtoull(text.c_str() + p + 11, nullptr, 10);
        int bad = 0;
        for (int i = 0; i < repeat; i++) {
            int64_t t0 = nowUs();
            Outcome o = runOne(c, cs);
            printf("%s %s (%lld ms)\n", kname(o.k), o.msg.c_str(), (long long)(nowUs() - t0) / 1000);
            if (o.bad()) bad++;
        }
        printf("REPLAY bad=%d of %d\n", bad, repeat);
        return bad ? 1 : 0;
    }

    int64_t t0 = nowUs(), end = t0 + budgetMs * 1000;
    int64_t evals = 0, discards = 0, inconclusive = 0, unrepro = 0, slowest = 0, knownHits = 0;
    std::map<std::string, int64_t> labels, metrics;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    std::string failJson;
    std::vector<std::string> unreproMsgs;
    int violations = 0;
    Rng sampleRng((uint64_t)seed ^ 0x5151);

    for (int64_t idx = firstIdx; nowUs() < end && evals < maxCases && !violations;) {
        std::vector<Case> cs;
        std::vector<uint64_t> seeds;
        for (int b = 0; b < g_info.batch; b++, idx++) {
            uint64_t s = mix64((uint64_t)seed * 1000003ull + (uint64_t)idx);
            Rng rng(s);
            cs.push_back(vpGenerate(rng, idx, thorough));
            seeds.push_back(s);
        }
        size_t from = 0;
        while (from < cs.size() && !violations) {
            std::vector<Outcome> os;
            int64_t b0 = nowUs();
            size_t n = runBatch(cs, seeds, from, os);
            slowest = std::max(slowest, (nowUs() - b0) / 1000);
            for (size_t i = 0; i < os.size() && !violations; i++) {
                const Case& c = cs[from + i];
                const Outcome& o = os[i];
                if (o.k == Outcome::DISCARD) { discards++; labels["discarded: " + o.msg]++; continue; }
                if (o.k == Outcome::INCONCLUSIVE) { inconclusive++; continue; }
                evals++;
                std::set<std::string> ls(o.labels.begin(), o.labels.end());
                for (auto& l : ls) labels[l]++;
                for (auto& m : o.metrics) metrics[m.first] += m.second;
                if (o.nontriv) {
                    bool fresh = hashes.insert(c.hash()).second;
                    if (fresh) {
                        std::string e = c.encode();
                        if (e.size() > 3000) e = e.substr(0, 3000) + "...";
                        if (samples.size() < 3) samples.push_back(e);
                        else if (sampleRng.chance(1, (int)std::min<size_t>(hashes.size(), 1000000))) samples[(size_t)sampleRng.below(3)] = e;
                    }
                }
                if (!o.bad()) continue;
                if (knownSigs.count(o.sig)) { knownHits++; metrics["known:" + o.sig]++; continue; }
                // ---- confirm
                int confirmed = 0, tried = 0;
                Outcome lastBad = o;
                if (o.hard()) {
                    int64_t cd = nowUs() + (o.k == Outcome::HANG ? 60000000ll : 20000000ll);
                    int runs = o.k == Outcome::HANG ? 3 : g_info.confirmRuns;
                    for (; tried < runs && nowUs() < cd; tried++) {
                        Outcome r = runOne(c, seeds[from + i]);
                        if (r.hard() && r.sig == o.sig) { confirmed++; lastBad = r; }
                        if (confirmed >= 3) { tried++; break; }
                    }
                    Case mini = c;
                    int sruns = 0;
                    if (confirmed) {
                        Shrinker sh;
                        sh.seed = seeds[from + i];
                        sh.sig = o.sig;
                        sh.attempts = (confirmed == tried) ? 1 : std::min(12, 3 * tried / confirmed);
                        sh.deadline = nowUs() + g_info.shrinkMs * 1000ll;
                        sh.lastBad = lastBad;
                        mini = sh.shrink(c);
                        lastBad = sh.lastBad;
                        sruns = sh.runs;
                    } else {
                        unrepro++;
                        unreproMsgs.push_back(o.msg.substr(0, 400));
                        writeFile(g_work + strf("/unrepro%lld.case", (long long)unrepro), replayText(c, seeds[from + i], o));
                        if (unrepro < g_info.minUnreproduced) continue;
                    }
                    violations++;
                    writeFile(g_work + "/violation.case", replayText(mini, seeds[from + i], lastBad));
                    failJson = strf("{\"kind\":\"%s\",\"sig\":%s,\"msg\":%s,\"confirmed\":%d,\"tried\":%d,\"shrink_runs\":%d,\"ops_before\":%zu,\"ops_after\":%zu}",
                                    kname(lastBad.k), jsonStr(lastBad.sig).c_str(), jsonStr(lastBad.msg).c_str(), confirmed, tried, sruns, c.ops.size(), mini.ops.size());
                } else {
                    // timing: leave the confirmation to the driver, on a quiet machine
                    metrics["timing_candidates"]++;
                    writeFile(g_work + strf("/timing%lld.case", (long long)metrics["timing_candidates"]), replayText(c, seeds[from + i], o));
                    if (metrics["timing_candidates"] >= 3) end = 0;
                }
            }
            from += std::max<size_t>(n, 1);
        }
    }
    std::string j = "{";
    j += strf("\"evaluations\":%lld,\"discards\":%lld,\"inconclusive\":%lld,\"unreproduced\":%lld,\"slowest_batch_ms\":%lld,\"violations\":%d,\"known_hits\":%lld,\"wall_ms\":%lld,",
              (long long)evals, (long long)discards, (long long)inconclusive, (long long)unrepro, (long long)slowest, violations, (long long)knownHits, (long long)(nowUs() - t0) / 1000);
    j += "\"rule\":" + jsonStr(g_info.rule) + ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { j += (first ? "" : ",") + jsonStr(l.first) + strf(":%lld", (long long)l.second); first = false; }
    j += "},\"metrics\":{";
    first = true;
    for (auto& l : metrics) { j += (first ? "" : ",") + jsonStr(l.first) + strf(":%lld", (long long)l.second); first = false; }
    j += "},\"unreproduced_msgs\":[";
    first = true;
    for (auto& m : unreproMsgs) { j += (first ? "" : ",") + jsonStr(m); first = false; }
    j += "],\"samples\":[";
    first = true;
    for (auto& s : samples) { j += (first ? "" : ",") + jsonStr(s); first = false; }
    j += "],\"failure\":" + (failJson.empty() ? std::string("null") : failJson) + ",\"hashes\":[";
    first = true;
    size_t hc = 0;
    for (auto h : hashes) { if (hc++ > 300000) break; j += strf("%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    j += "]}\n";
    if (!outFile.empty()) writeFile(outFile, j);
    else { size_t hp = j.find("\"hashes\""); fputs(j.substr(0, hp).c_str(), stdout); puts(""); }
    return violations ? 1 : 0;
}
}  // namespace vp

#ifndef VP_NO_MAIN
int main(int argc, char** argv) { return vp::realMain(argc, argv); }
#endif
