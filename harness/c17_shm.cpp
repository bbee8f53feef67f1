// C17: a shared-memory object is one region with a clear owner (model of named regions).
#include "vp.h"
#include "shared_memory.h"
#include <fcntl.h>
#include <memory>
#include <map>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;
using veigar::SharedMemory;

void vpInfo(Info& i) {
    i.id = "C17";
    i.batch = 20;
    i.rule = "A case is 3..50 operations (new handle, create, open with equal, smaller or larger size, write, read, close, double close, open of missing, creation with impossible size or name also over an object in use, "
             "creation over a stale object of another size left by a dead process, access from another process) on 6 handles over 3 names, sizes 1 byte to 300 KB. "
             "Non-trivial: bytes written through one handle were read through another, or a stale object was taken over.";
}

Case vpGenerate(Rng& r, int64_t idx, bool thorough) {
    Case c;
    int64_t sizes[3];
    for (auto& s : sizes) {
        int64_t cand[] = {r.range(1, 64), r.range(1, 5000), 4096, 4097, r.range(1, 300000)};
        s = cand[r.below(5)];
    }
    for (int i = 0; i < 3; i++) c.cfg[strf("size%d", i)] = sizes[i];
    int64_t n = r.range(3, 50);
    for (int64_t i = 0; i < n; i++) {
        int64_t h = r.below(6), nm = r.weighted({6, 3, 1});
        switch (r.weighted({8, 9, 8, 8, 7, 2, 2, 1, 2, 2})) {
            case 0: c.ops.push_back(Op("create", {h, nm})); break;
            case 1: c.ops.push_back(Op("open", {h, nm, r.weighted({8, 2, 2}), r.range(1, 5000)})); break;
            case 2: c.ops.push_back(Op("write", {h, r.small(300000), r.small(3000), r.range(1, 1 << 30)})); break;
            case 3: c.ops.push_back(Op("read", {h})); break;
            case 4: c.ops.push_back(Op("close", {h})); break;
            case 5: c.ops.push_back(Op("badcreate", {h, r.below(7), nm})); break;
            case 6: c.ops.push_back(Op("badopen", {h, r.below(5), nm})); break;
            case 7: c.ops.push_back(Op("stale", {nm, r.range(1, 20000)})); break;
            case 8: c.ops.push_back(Op("procread", {nm})); break;
            case 9: c.ops.push_back(Op("reuse", {h, nm})); break;
        }
    }
    return c;
}

struct Region {
    std::string bytes;
    bool linked = true;
};

static bool nameExists(const std::string& n) {
    int fd = shm_open(("/" + n).c_str(), O_RDWR, 0);
    if (fd < 0) return false;
    close(fd);
    return true;
}

void vpRun(const Case& c) {
    std::string names[3] = {prefix() + "a", prefix() + "b", prefix() + "c"};
    int64_t sizes[3];
    for (int i = 0; i < 3; i++) { sizes[i] = c.get(strf("size%d", i)); if (sizes[i] < 1) sizes[i] = 1; }
    struct H {
        std::unique_ptr<SharedMemory> m;
        std::shared_ptr<Region> r;
        bool creator = false;
        int nm = 0;
        int64_t size = 0;
    } h[6];
    std::shared_ptr<Region> cur[3];     // region currently behind the name
    bool stale[3] = {};                 // an object of a dead process is behind the name
    bool shared = false, took = false;
    auto check = [&](size_t oi, const char* what) {
        for (int i = 0; i < 6; i++) {
            if (!h[i].m) continue;
            VP_CHECK(h[i].m->valid() == !!h[i].r, "op %zu (%s): handle %d reports valid=%d, expected %d", oi, what, i, h[i].m->valid(), !!h[i].r);
            if (!h[i].r) VP_CHECK(h[i].m->data() == nullptr, "op %zu (%s): an invalid handle still has an address", oi, what);
        }
        for (int n = 0; n < 3; n++) {
            bool e = nameExists(names[n]), want = !!cur[n] || stale[n];
            VP_CHECK(e == want, "op %zu (%s): the object of name %d %s, expected the opposite", oi, what, n, e ? "exists" : "does not exist");
        }
    };
    for (size_t oi = 0; oi < c.ops.size(); oi++) {
        const Op& o = c.ops[oi];
        int i = (int)(((o.at(0) % 6) + 6) % 6);
        H& x = h[i];
        if (o.k == "create") {
            int nm = (int)(((o.at(1) % 3) + 3) % 3);
            if (x.r || cur[nm]) continue;  // creating a name in use is not specified
            bool reuse = x.m && x.nm == nm && x.size == sizes[nm] && o.at(0) % 2;
            if (!reuse) x.m.reset(new SharedMemory(names[nm], sizes[nm]));
            x.nm = nm;
            x.size = sizes[nm];
            VP_CHECK(x.m->create(), "op %zu: creating %lld bytes failed", oi, (long long)sizes[nm]);
            VP_CHECK(x.m->data() != nullptr && x.m->size() == sizes[nm], "op %zu: created handle has no address or another size", oi);
            x.r = std::make_shared<Region>();
            // initial contents of a fresh object are zero; over a stale object they are not specified
            if (stale[nm]) { memset(x.m->data(), 0, (size_t)sizes[nm]); took = true; }
            x.r->bytes = std::string((size_t)sizes[nm], '\0');
            stale[nm] = false;
            cur[nm] = x.r;
            x.creator = true;
        } else if (o.k == "open") {
            int nm = (int)(((o.at(1) % 3) + 3) % 3);
            if (x.r || stale[nm]) continue;
            int64_t full = cur[nm] ? (int64_t)cur[nm]->bytes.size() : sizes[nm];
            int64_t sz = full;
            if (o.at(2) == 1) sz = 1 + (o.at(3) < 0 ? 0 : o.at(3)) % full;
            if (o.at(2) == 2) sz = full + 1 + (o.at(3) < 0 ? 0 : o.at(3));
            x.m.reset(new SharedMemory(names[nm], sz));
            x.nm = nm;
            x.size = sz;
            bool ok = !!cur[nm] && sz <= full;
            bool r = x.m->open();
            if (r && !ok && cur[nm]) {
                VP_CHECK(r == ok, "op %zu: opening %lld bytes of an object of %lld bytes succeeded: the bytes behind the end are not accessible", oi, (long long)sz, (long long)full);
            }
            VP_CHECK(r == ok, "op %zu: open of %s object returned %d", oi, cur[nm] ? "an existing" : "a missing", r);
            if (r) { x.r = cur[nm]; x.creator = false; }
        } else if (o.k == "write") {
            if (!x.r) continue;
            int64_t off = (o.at(1) < 0 ? 0 : o.at(1)) % x.size;
            int64_t len = std::min<int64_t>(1 + (o.at(2) < 0 ? 0 : o.at(2)), x.size - off);
            Rng r((uint64_t)o.at(3));
            std::string d = r.bytes((size_t)len);
            memcpy(x.m->data() + off, d.data(), d.size());
            x.r->bytes.replace((size_t)off, (size_t)len, d);
            // first and last byte as well
            x.m->data()[x.size - 1] = d[0];
            x.r->bytes[(size_t)x.size - 1] = d[0];
        } else if (o.k == "read") {
            if (!x.r) continue;
            VP_CHECK(memcmp(x.m->data(), x.r->bytes.data(), (size_t)x.size) == 0, "op %zu: handle %d does not see the bytes written through the other handles", oi, i);
            if (x.r.use_count() > 2) shared = true;
        } else if (o.k == "close") {
            if (!x.m) continue;
            bool wasValid = !!x.r;
            x.m->close();
            if (wasValid && x.creator && cur[x.nm] == x.r) cur[x.nm].reset();
            // a creator removes the name: when the name was taken over meanwhile by another creator, nothing is specified; the generator never does that
            x.r.reset();
            x.creator = false;
            x.m->close();
        } else if (o.k == "badcreate") {
            if (x.r) continue;
            int64_t kind = o.at(1);
            if (kind >= 4) {   // over an object that somebody has: it must stay as it is
                int nm = (int)(((o.at(2) % 3) + 3) % 3);
                if (!cur[nm]) continue;
                const int64_t bad[] = {0, -5, (int64_t)1 << 62};
                x.m.reset(new SharedMemory(names[nm], bad[kind % 3]));
                x.nm = -1;
                VP_CHECK(!x.m->create(), "op %zu: creation with an impossible size succeeded", oi);
                VP_CHECK(!x.m->valid() && !x.m->data(), "op %zu: handle valid after a failed creation", oi);
                x.m->close();
                struct stat st;
                VP_CHECK(stat(("/dev/shm/" + names[nm]).c_str(), &st) == 0, "op %zu: a failed creation removed the object of somebody else", oi);
                VP_CHECK(st.st_size == (int64_t)cur[nm]->bytes.size(), "op %zu: a failed creation changed the size of somebody else's object from %zu to %lld", oi, cur[nm]->bytes.size(), (long long)st.st_size);
                check(oi, o.k.c_str());
                continue;
            }
            if (kind == 0) x.m.reset(new SharedMemory(prefix() + "z", 0));
            else if (kind == 1) x.m.reset(new SharedMemory(prefix() + "z", -5));
            else if (kind == 2) x.m.reset(new SharedMemory("", 10));
            else x.m.reset(new SharedMemory(prefix() + "z", (int64_t)1 << 62));
            x.nm = -1;
            VP_CHECK(!x.m->create(), "op %zu: creation with an impossible %s succeeded", oi, kind == 2 ? "name" : "size");
            VP_CHECK(!nameExists(prefix() + "z"), "op %zu: a failed creation left an object behind", oi);
            VP_CHECK(!x.m->valid() && !x.m->data(), "op %zu: handle valid after a failed creation", oi);
            x.m->close();
        } else if (o.k == "badopen") {
            if (x.r) continue;
            if (o.at(1) >= 3) {   // an object in use, with an impossible size
                int nm = (int)(((o.at(2) % 3) + 3) % 3);
                if (!cur[nm]) continue;
                x.m.reset(new SharedMemory(names[nm], o.at(1) == 3 ? -1 : (int64_t)1 << 62));
                x.nm = -1;
                VP_CHECK(!x.m->open(), "op %zu: opening with an impossible size succeeded", oi);
                x.m->close();
                check(oi, o.k.c_str());
                continue;
            }
            if (o.at(1) == 0) x.m.reset(new SharedMemory("", 10));
            else if (o.at(1) == 1) x.m.reset(new SharedMemory(prefix() + "missing", 10));
            else x.m.reset(new SharedMemory(prefix() + "missing", -1));
            x.nm = -1;
            VP_CHECK(!x.m->open(), "op %zu: opening a missing object succeeded", oi);
            VP_CHECK(!nameExists(prefix() + "missing"), "op %zu: a failed open created an object", oi);
        } else if (o.k == "stale") {
            int nm = (int)(((o.at(0) % 3) + 3) % 3);
            if (cur[nm] || stale[nm]) continue;
            pid_t p = fork();
            if (p == 0) {
                SharedMemory m(names[nm], 1 + (o.at(1) < 0 ? 0 : o.at(1)));
                if (m.create()) memset(m.data(), 0x77, (size_t)m.size());
                _exit(0);  // dies without closing
            }
            waitpid(p, nullptr, 0);
            stale[nm] = true;
        } else if (o.k == "procread") {
            int nm = (int)(((o.at(0) % 3) + 3) % 3);
            if (!cur[nm]) continue;
            std::string want = cur[nm]->bytes;
            pid_t p = fork();
            if (p == 0) {
                SharedMemory m(names[nm], (int64_t)want.size());
                if (!m.open()) _exit(11);
                if (memcmp(m.data(), want.data(), want.size()) != 0) _exit(12);
                m.data()[want.size() - 1] ^= 0x55;
                m.close();
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "op %zu: another process %s", oi, WIFEXITED(st) && WEXITSTATUS(st) == 12 ? "sees other bytes" : "could not open the object");
            cur[nm]->bytes.back() ^= 0x55;
            shared = true;
        } else if (o.k == "reuse") {
            // a closed handle object opened again (for the name it was made for)
            if (x.r || !x.m || x.nm < 0 || stale[x.nm]) continue;
            bool ok = cur[x.nm] && x.size <= (int64_t)cur[x.nm]->bytes.size();
            bool r = x.m->open();
            VP_CHECK(r == ok, "op %zu: open with a handle used before returned %d, expected %d", oi, r, ok);
            if (r) { x.r = cur[x.nm]; x.creator = false; }
        } else continue;
        check(oi, o.k.c_str());
        for (int k = 0; k < 6; k++) {
            if (h[k].r) VP_CHECK(memcmp(h[k].m->data(), h[k].r->bytes.data(), (size_t)h[k].size) == 0, "op %zu (%s): handle %d sees other bytes than the rest", oi, o.k.c_str(), k);
        }
    }
    for (auto& x : h) if (x.m) x.m->close();
    for (int n = 0; n < 3; n++) if (!stale[n]) VP_CHECK(!nameExists(names[n]), "the object is still there after its creator closed it");
    if (shared) label("seen through several handles");
    if (took) label("stale object taken over");
    if (shared || took) nontrivial();
}
