// C12: coverage-guided search for byte strings on which the codec and the reference disagree.
#include "msgref.h"
#include "veigar/msgpack.hpp"
#include <stdio.h>
#include <stdarg.h>
#include <set>
namespace vp {  // the few helpers of the engine the reference uses
std::string strf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); char b[512]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
std::string hex(const std::string& s, size_t m) { std::string r; char b[4]; for (size_t i = 0; i < s.size() && i < m; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; } if (s.size() > m) r += ".."; return r; }
uint64_t Rng::next() { return s = s * 6364136223846793005ull + 1442695040888963407ull; }
uint64_t mix64(uint64_t x) { return x * 0x9E3779B97F4A7C15ull + 1; }
int64_t Rng::range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)(next() >> 11) % (hi - lo + 1); }
int64_t Rng::small(int64_t m) { return range(0, m); }
int Rng::weighted(const std::vector<int>& w) { return (int)range(0, (int64_t)w.size() - 1); }
std::string Rng::bytes(size_t n, int) { return std::string(n, 'x'); }
[[noreturn]] void fail(const std::string& m) { fprintf(stderr, "ORACLE: %s\n", m.c_str()); abort(); }
}
#include "c12_obj.h"
namespace mp = veigar_msgpack;
using mref::Node;
static uint64_t nAcc, nRej, nStream, nNested, nRuns;
static std::vector<std::string> samples;
static void writeStats() {
    const char* f = getenv("VP_STATS");
    if (!f) return;
    FILE* o = fopen(f, "w");
    if (!o) return;
    fprintf(o, "nontrivial=%llu\naccepted=%llu\nrejected=%llu\nstreamed_values=%llu\nnested=%llu\n", (unsigned long long)nNested, (unsigned long long)nAcc, (unsigned long long)nRej, (unsigned long long)nStream, (unsigned long long)nNested);
    for (size_t i = 0; i < samples.size(); i++) fprintf(o, "sample%zu=%s\n", i, samples[i].c_str());
    fclose(o);
}
static bool refNone(mp::type::object_type, std::size_t, void*) { return false; }
static bool refAll(mp::type::object_type, std::size_t, void*) { return true; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 3) return 0;
    static bool init = (atexit(writeStats), true);
    (void)init;
    if (++nRuns % 20000 == 0) writeStats();
    uint8_t m = data[0], chunk = data[1];
    std::string d((const char*)data + 2, size - 2);
    mref::Limits lim;
    lim.arr = lim.map = 1 << 14;
    if (m & 4) { lim.arr = 8; lim.map = 6; lim.str = 20; lim.bin = 18; lim.ext = 12; lim.depth = 4; }
    mp::unpack_limit ul(lim.arr, lim.map, lim.str == ~0ull ? 0xffffffff : lim.str, lim.bin == ~0ull ? 0xffffffff : lim.bin, lim.ext == ~0ull ? 0xffffffff : lim.ext, lim.depth == ~0ull ? 0xffffffff : lim.depth);
    Node n;
    size_t roff = 0;
    mref::Status st = mref::decode(d, roff, n, lim);
    if (st == mref::DEEP) return 0;
    char* buf = (char*)malloc(d.size());
    memcpy(buf, d.data(), d.size());
    size_t off = 0;
    bool ok = false;
    mp::object_handle oh;
    try {
        bool ref;
        oh = mp::unpack(buf, d.size(), off, ref, (m & 1) ? refAll : (m & 2) ? refNone : nullptr, nullptr, ul);
        ok = true;
    } catch (mp::unpack_error&) {
    } catch (std::bad_alloc&) {}
    if (ok != (st == mref::OK)) vp::fail(std::string("codec ") + (ok ? "accepts" : "refuses") + ", reference status " + std::to_string((int)st) + ": " + vp::hex(d, 200));
    if (ok) {
        nAcc++;
        if (off != roff) vp::fail(vp::strf("offset %zu instead of %zu: ", off, roff) + vp::hex(d, 200));
        c12::expectObj(oh.get(), n, "unpack " + vp::hex(d, 200));
        mp::object_handle cl = mp::clone(oh.get());
        memset(buf, 0x33, d.size());
        free(buf);
        buf = nullptr;
        c12::expectObj(cl.get(), n, "clone " + vp::hex(d, 200));
        if (!n.c.empty()) {
            nNested++;
            if (samples.size() < 3 && nNested % 4096 == 1) samples.push_back(vp::hex(d, 60));
        }
        mp::sbuffer b;
        mp::pack(b, cl.get());
        Node n2;
        size_t o2 = 0;
        std::string pk(b.data(), b.size());
        if (mref::decode(pk, o2, n2) != mref::OK || o2 != pk.size() || !c12::sameValue(n2, n)) vp::fail("repacking " + vp::hex(d, 200) + " gave " + vp::hex(pk, 200));
    } else nRej++;
    free(buf);
    // the whole input as a stream of values
    mp::unpacker u((m & 1) ? refAll : refNone, nullptr, 1 + (m >> 3), ul);
    size_t pos = 0, end = 0;
    bool dead = false;
    while (pos < d.size() && !dead) {
        size_t k = std::min<size_t>(d.size() - pos, 1 + chunk % 23);
        u.reserve_buffer(k);
        memcpy(u.buffer(), d.data() + pos, k);
        u.buffer_consumed(k);
        pos += k;
        mp::object_handle so;
        while (!dead) {
            bool got = false, threw = false;
            try { got = u.next(so); } catch (mp::unpack_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
            size_t e2 = end;
            Node x;
            // what the reference sees in the bytes so far
            mref::Status s2 = mref::decode(d.substr(0, pos), e2, x, lim);
            if (s2 == mref::DEEP) { dead = true; break; }
            if (got != (s2 == mref::OK)) vp::fail(vp::strf("stream: %s, reference status %d, after %zu bytes: ", got ? "value" : threw ? "error" : "incomplete", (int)s2, pos) + vp::hex(d, 200));
            if (threw) { if (s2 == mref::SHORT) vp::fail("stream: error on incomplete data: " + vp::hex(d, 200)); dead = true; break; }
            if (!got) { if (s2 != mref::SHORT) vp::fail("stream: invalid data taken for incomplete: " + vp::hex(d, 200)); break; }
            c12::expectObj(so.get(), x, "stream " + vp::hex(d, 200));
            nStream++;
            end = e2;
        }
    }
    return 0;
}
