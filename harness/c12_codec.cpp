// C12: the bundled codec implements MessagePack faithfully.
#include "c02_values.h"
#include "c12_obj.h"
#include <sstream>
using namespace c02;
using mref::Node;
namespace mp = veigar_msgpack;
namespace c12 { void opApi(Rng& r); void opConv(Rng& r); }

std::vector<TypeEntry>& c02::types() { static std::vector<TypeEntry> t; return t; }

void vpInfo(Info& i) {
    i.id = "C12";
    i.watchdogMs = 60000;
    i.rule = "A case is 10..60 codec operations against an independent reference implementation of the format: (tree) a random value packed with the packer's primitives, compared byte by byte with the shortest encoding, "
             "also through the vectored buffer, unpacked from a randomly widened encoding, by reference and by copy, cloned, compared, repacked; (stream) several widened values cut into random chunks for the streaming unpacker "
             "and the visitor parser; (mutate) truncated and mutated encodings, where acceptance, value and end offset must be those of the reference; (limit) every kind of limit just below and at what the value needs; "
             "(typed) generated values of 88 C++ types packed, unpacked, cloned, converted; (convert) objects converted to integer types of every width; "
             "(api) sequences of operations on vectored, plain and file buffers, on zones, on a streaming unpacker that is moved, skips and drops bytes, on reference types and on nested objects, each with a model; (conv) mutated packed values converted to 54 C++ types, new and already filled ones, where the result and the refusal must be those of a reference conversion. Input buffers have their exact size under AddressSanitizer. "
             "Non-trivial: at least 5 operations were compared.";
    i.batch = 4;
}

Case vpGenerate(Rng& r, int64_t, bool thorough) {
    Case c;
    int64_t n = r.range(10, thorough ? 150 : 60);
    for (int64_t i = 0; i < n; i++) {
        static const std::vector<std::string> k = {"tree", "stream", "mutate", "limit", "typed", "convert", "pair", "prim", "api", "conv"};
        int w = r.weighted({5, 4, 4, 3, 5, 2, 1, 2, 4, 8});
        c.ops.push_back(Op(k[(size_t)w], {(int64_t)(r.next() >> 1), r.chance(1, 10) ? 1 : 0, r.below(1000)}));
    }
    return c;
}

// Packs a value with the primitives of the packer.
template <typename P> void packNode(P& p, const Node& n, Rng& r) {
    switch (n.t) {
        case Node::NIL: p.pack_nil(); break;
        case Node::BOOL: if (n.u) p.pack_true(); else p.pack_false(); break;
        case Node::UINT: {
            // any of the integer primitives that can represent it
            std::vector<int> w = {0};
            if (n.u <= 255) w.push_back(1);
            if (n.u <= 65535) w.push_back(2);
            if (n.u <= 0xffffffffu) w.push_back(3);
            if (n.u <= 127) w.push_back(4);
            if (n.u <= 32767) w.push_back(5);
            if (n.u <= 0x7fffffff) w.push_back(6);
            if (n.u <= 0x7fffffffffffffffull) w.push_back(7);
            switch (r.pick(w)) {
                case 0: r.chance(1, 2) ? p.pack_uint64(n.u) : p.pack_unsigned_long_long(n.u); break;
                case 1: r.chance(1, 2) ? p.pack_uint8((uint8_t)n.u) : p.pack_unsigned_char((unsigned char)n.u); break;
                case 2: r.chance(1, 2) ? p.pack_uint16((uint16_t)n.u) : p.pack_unsigned_short((unsigned short)n.u); break;
                case 3: r.chance(1, 2) ? p.pack_uint32((uint32_t)n.u) : p.pack_unsigned_int((unsigned)n.u); break;
                case 4: r.chance(1, 2) ? p.pack_int8((int8_t)n.u) : p.pack_char((char)n.u); break;
                case 5: r.chance(1, 2) ? p.pack_int16((int16_t)n.u) : p.pack_short((short)n.u); break;
                case 6: r.chance(1, 2) ? p.pack_int32((int32_t)n.u) : p.pack_int((int)n.u); break;
                default: r.chance(1, 2) ? p.pack_int64((int64_t)n.u) : p.pack_long_long((long long)n.u); break;
            }
            break;
        }
        case Node::NEG: {
            int64_t v = (int64_t)n.u;
            std::vector<int> w = {0};
            if (v >= -128) w.push_back(1);
            if (v >= -32768) w.push_back(2);
            if (v >= INT32_MIN) w.push_back(3);
            switch (r.pick(w)) {
                case 0: r.chance(1, 2) ? p.pack_int64(v) : p.pack_long(v); break;
                case 1: r.chance(1, 2) ? p.pack_int8((int8_t)v) : p.pack_signed_char((signed char)v); break;
                case 2: r.chance(1, 2) ? p.pack_int16((int16_t)v) : p.pack_short((short)v); break;
                default: r.chance(1, 2) ? p.pack_int32((int32_t)v) : p.pack_int((int)v); break;
            }
            break;
        }
        case Node::F32: p.pack_float((float)n.f()); break;
        case Node::F64: p.pack_double(n.f()); break;
        case Node::STR: p.pack_str((uint32_t)n.s.size()); p.pack_str_body(n.s.data(), (uint32_t)n.s.size()); break;
        case Node::BIN: p.pack_bin((uint32_t)n.s.size()); p.pack_bin_body(n.s.data(), (uint32_t)n.s.size()); break;
        case Node::EXT: p.pack_ext(n.s.size(), n.ext); p.pack_ext_body(n.s.data(), (uint32_t)n.s.size()); break;
        case Node::ARR: p.pack_array((uint32_t)n.c.size()); for (auto& x : n.c) packNode(p, x, r); break;
        case Node::MAP: p.pack_map((uint32_t)(n.c.size() / 2)); for (auto& x : n.c) packNode(p, x, r); break;
    }
}
// Integral floats are packed as integers.
static Node canon(Node n) {
    if (n.t == Node::F32 || n.t == Node::F64) {
        double d = n.f();
        if (d == d && !(d == 0 && std::signbit(d))) {
            if (d >= 0 && d < 18446744073709551616.0 && d == floor(d)) return Node::uinteger((uint64_t)d);
            if (d < 0 && d >= -9223372036854775808.0 && d == ceil(d)) return Node::integer((int64_t)d);
        }
    }
    for (auto& x : n.c) x = canon(x);
    return n;
}
// NaNs keep being NaNs but not bit by bit through float conversions.
static bool hasF32(const Node& n) { if (n.t == Node::F32 && mref::isnanBits(n.u)) return true; for (auto& x : n.c) if (hasF32(x)) return true; return false; }

struct Exact {  // a buffer of exactly the right size
    char* p;
    size_t n;
    explicit Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    void destroy() { if (p) { memset(p, 0x77, n); free(p); p = nullptr; } }
    ~Exact() { destroy(); }
};
static bool refNone(mp::type::object_type, std::size_t, void*) { return false; }
static bool refAll(mp::type::object_type, std::size_t, void*) { return true; }
static bool refSome(mp::type::object_type, std::size_t n, void*) { return n > 8; }
static mp::unpack_reference_func pickRef(Rng& r, bool& copies) {
    switch (r.below(4)) { case 0: copies = true; return refNone; case 1: copies = false; return refAll; case 2: copies = false; return refSome; default: copies = true; return nullptr; }
}
enum Out { O_OK, O_SHORT, O_BAD, O_LIMIT, O_OTHER };
static const char* outName(int o) { static const char* n[] = {"value", "insufficient_bytes", "parse_error", "size_overflow", "other exception"}; return n[o]; }
static Out doUnpack(const Exact& e, size_t& off, mp::object_handle& oh, mp::unpack_reference_func f, const mp::unpack_limit& lim, int api) {
    try {
        bool referenced = false;
        switch (api) {
            case 0: oh = mp::unpack(e.p, e.n, off, referenced, f, nullptr, lim); break;
            case 1: mp::unpack(oh, e.p, e.n, off, referenced, f, nullptr, lim); break;
            default: {
                std::unique_ptr<mp::zone> z(new mp::zone);
                mp::object o = mp::unpack(*z, e.p, e.n, off, referenced, f, nullptr, lim);
                oh = mp::object_handle(o, std::move(z));
            }
        }
        return O_OK;
    } catch (mp::insufficient_bytes&) { return O_SHORT;
    } catch (mp::parse_error&) { return O_BAD;
    } catch (mp::size_overflow&) { return O_LIMIT;
    } catch (std::bad_alloc&) { return O_OTHER;
    } catch (std::exception& ex) { fail(std::string("unpacking threw ") + ex.what()); }
}

// The same value collected through the visitor interface.
struct Collect : mp::null_visitor {
    std::vector<Node> st;
    Node root;
    bool done = false;
    std::string err;
    void add(Node n) { if (st.empty()) root = std::move(n); else st.back().c.push_back(std::move(n)); }
    bool visit_nil() { add(Node::nil()); return true; }
    bool visit_boolean(bool v) { add(Node::boolean(v)); return true; }
    bool visit_positive_integer(uint64_t v) { add(Node::uinteger(v)); return true; }
    bool visit_negative_integer(int64_t v) { add(Node::integer(v)); return true; }
    bool visit_float32(float v) { add(Node::f32(v)); return true; }
    bool visit_float64(double v) { add(Node::f64(v)); return true; }
    bool visit_str(const char* v, uint32_t n) { add(Node::str(n ? std::string(v, n) : std::string())); return true; }
    bool visit_bin(const char* v, uint32_t n) { add(Node::bin(n ? std::string(v, n) : std::string())); return true; }
    bool visit_ext(const char* v, uint32_t n) { Node x; x.t = Node::EXT; if (n == 0) { err = "ext without type"; return true; } x.ext = (int8_t)v[0]; x.s.assign(v + 1, n - 1); add(x); return true; }
    uint64_t pendingCount = 0;
    bool start_array(uint32_t) { Node x; x.t = Node::ARR; st.push_back(x); return true; }
    bool end_array() { return close(); }
    bool start_map(uint32_t) { Node x; x.t = Node::MAP; st.push_back(x); return true; }
    bool end_map() { return close(); }
    bool close() { if (st.empty()) { err = "unbalanced end"; return true; } Node x = std::move(st.back()); st.pop_back(); add(std::move(x)); return true; }
    bool bad = false, shortData = false;
    void parse_error(size_t, size_t) { bad = true; }
    void insufficient_bytes(size_t, size_t) { shortData = true; }
};

static int64_t gOps;
static void opTree(Rng& r, int big) {
    Node n = mref::random(r, 4, big);
    Node cn = canon(n);
    std::string want = mref::encode(cn);
    phase("tree " + mref::show(n));
    mp::sbuffer b(r.chance(1, 2) ? 8192 : (size_t)r.range(1, 64));
    mp::packer<mp::sbuffer> p(b);
    Rng pr(r.next()), pr2(r.next());
    packNode(p, n, pr);
    std::string got(b.data(), b.size());
    if (!hasF32(n) && got != want) fail("packing " + mref::show(n) + " gave " + hex(got, 60) + " instead of " + hex(want, 60));
    {
        mp::vrefbuffer vb((size_t)r.range(1, 64), (size_t)r.range(8, 4096));
        mp::packer<mp::vrefbuffer> vp2(vb);
        packNode(vp2, n, pr2);
        std::string s;
        for (size_t i = 0; i < vb.vector_size(); i++) s.append((const char*)vb.vector()[i].iov_base, vb.vector()[i].iov_len);
        if (s != got) fail("the vectored buffer holds " + hex(s, 60) + " instead of " + hex(got, 60));
    }
    {
        std::stringstream ss;
        mp::packer<std::stringstream> sp(ss);
        Rng pr3(r.next());
        packNode(sp, n, pr3);
        if (ss.str() != got) fail("packing to a stream gave other bytes");
    }
    Rng wr(r.next());
    std::string wide = mref::encode(n, r.chance(1, 4) ? nullptr : &wr);
    std::string tail = r.chance(1, 2) ? r.bytes((size_t)r.below(5), 0) : std::string();
    std::string head = r.chance(1, 2) ? r.bytes((size_t)r.below(5), 0) : std::string();
    Exact e(head + wide + tail);
    bool copies;
    auto f = pickRef(r, copies);
    size_t off = head.size();
    mp::object_handle oh;
    Out o = doUnpack(e, off, oh, f, mp::unpack_limit(), (int)r.below(3));
    if (o != O_OK) fail("unpacking " + hex(wide, 60) + " (" + mref::show(n) + ") reported " + outName(o));
    if (off != head.size() + wide.size()) fail(strf("unpacking stopped at offset %zu instead of %zu: ", off, head.size() + wide.size()) + hex(wide, 60));
    expectObj: c12::expectObj(oh.get(), n, "unpacking " + hex(wide, 60));
    {
        Collect v;
        size_t o2 = head.size();
        bool ok = mp::parse(e.p, e.n, o2, v);
        if (!ok || v.bad || v.shortData || !v.err.empty() || o2 != head.size() + wide.size() || !mref::eq(v.root, n)) fail("the visitor parser saw " + mref::show(v.root) + " in " + hex(wide, 60) + " " + v.err);
    }
    mp::object_handle cl = mp::clone(oh.get());
    mp::object_handle cl2;
    {
        std::unique_ptr<mp::zone> z(new mp::zone((size_t)r.range(1, 300)));
        mp::object oo(oh.get(), *z);
        cl2 = mp::object_handle(oo, std::move(z));
    }
    Node bits = n;
    std::function<bool(const Node&)> nan = [&](const Node& x) { if ((x.t == Node::F32 || x.t == Node::F64) && mref::isnanBits(x.u)) return true; for (auto& y : x.c) if (nan(y)) return true; return false; };
    if (!nan(n) && !(oh.get() == cl.get())) fail("an object is not equal to its clone: " + mref::show(n));
    mp::object_handle moved(std::move(oh));
    oh = std::move(moved);
    if (copies) { e.destroy(); c12::expectObj(oh.get(), n, "an object unpacked by copy, after its buffer is gone"); }
    oh.set(mp::object());
    oh.zone().reset();
    e.destroy();
    c12::expectObj(cl.get(), n, "a clone, after the original is gone");
    c12::expectObj(cl2.get(), n, "an object copied into a zone, after the original is gone");
    mp::sbuffer b3;
    mp::pack(b3, cl.get());
    if (!hasF32(n) && std::string(b3.data(), b3.size()) != want) fail("repacking the object " + mref::show(n) + " gave " + hex(std::string(b3.data(), b3.size()), 60) + " instead of " + hex(want, 60));
    gOps++;
    if (0) goto expectObj;
}

static void opStream(Rng& r, int big) {
    std::vector<Node> vals;
    std::string data;
    size_t cnt = (size_t)r.range(1, 6);
    for (size_t i = 0; i < cnt; i++) {
        vals.push_back(mref::random(r, 3, big && i == 0));
        Rng w(r.next());
        data += mref::encode(vals.back(), r.chance(1, 3) ? nullptr : &w);
    }
    bool truncated = r.chance(1, 4);
    if (truncated && !data.empty()) data.resize(data.size() - (size_t)r.range(1, (int64_t)std::min<size_t>(data.size(), 8)));
    // how many complete values there are
    std::vector<size_t> ends;
    size_t off = 0;
    for (size_t i = 0; i < cnt; i++) {
        Node x;
        if (mref::decode(data, off, x) != mref::OK) break;
        ends.push_back(off);
    }
    phase(strf("stream of %zu values, %zu bytes", cnt, data.size()));
    bool copies;
    auto f = pickRef(r, copies);
    mp::unpacker u(f, nullptr, (size_t)r.range(1, r.chance(1, 2) ? 64 : 4096));
    std::vector<mp::object_handle> kept;
    size_t done = 0, pos = 0;
    int mode = (int)r.below(3);
    while (pos < data.size()) {
        size_t n = mode == 0 ? 1 : mode == 1 ? (size_t)r.range(1, 7) : (size_t)r.range(1, (int64_t)data.size());
        n = std::min(n, data.size() - pos);
        if (big && n < 64) n = std::min<size_t>(data.size() - pos, 64 + n);
        size_t cap = n + (r.chance(1, 3) ? (size_t)r.below(64) : 0);
        u.reserve_buffer(cap);
        if (u.buffer_capacity() < cap) fail(strf("reserve_buffer(%zu) left a capacity of %zu", cap, u.buffer_capacity()));
        memcpy(u.buffer(), data.data() + pos, n);
        u.buffer_consumed(n);
        pos += n;
        mp::object_handle oh;
        while (true) {
            bool ok;
            try {
                ok = u.next(oh);
            } catch (std::exception& ex) {
                fail(std::string("the streaming unpacker threw ") + ex.what() + " in " + hex(data, 60));
            }
            if (!ok) break;
            if (done >= ends.size() || ends[done] > pos) fail("the streaming unpacker returned a value that is not complete: " + hex(data.substr(0, pos), 60));
            c12::expectObj(oh.get(), vals[done], "streaming unpacker, value " + std::to_string(done));
            done++;
            kept.push_back(std::move(oh));
            oh = mp::object_handle();
        }
        size_t should = 0;
        while (should < ends.size() && ends[should] <= pos) should++;
        if (done != should) fail(strf("after %zu bytes the streaming unpacker returned %zu values instead of %zu: ", pos, done, should) + hex(data.substr(0, pos), 60));
    }
    for (size_t i = 0; i < kept.size(); i++) c12::expectObj(kept[i].get(), vals[i], "a value of the streaming unpacker, later");
    gOps++;
}

static void opMutate(Rng& r, int big) {
    Node n = mref::random(r, 3, 0);
    Rng w(r.next());
    std::string d = mref::encode(n, r.chance(1, 2) ? &w : nullptr);
    bool pureTruncation = false;
    if (r.chance(1, 3) && !d.empty()) {
        d.resize((size_t)r.below((int64_t)d.size()));
        pureTruncation = true;
    } else {
        for (int64_t k = r.range(1, 4); k > 0 && !d.empty(); k--) {
            size_t at = (size_t)r.below((int64_t)std::min<size_t>(d.size(), r.chance(1, 2) ? 6 : d.size()));
            switch (r.below(5)) {
                case 0: d[at] = (char)r.next(); break;
                case 1: d[at] = (char)(0xc0 + r.below(32)); break;
                case 2: d.insert(at, 1, (char)r.next()); break;
                case 3: d.erase(at, 1); break;
                default: d.resize(at); break;
            }
        }
    }
    mref::Limits lim;
    lim.arr = lim.map = 1 << 18;  // keeps absurd lengths from allocating gigabytes
    Node rn;
    size_t roff = 0;
    mref::Status st = mref::decode(d, roff, rn, lim);
    if (st == mref::DEEP) return;
    phase("bytes " + hex(d, 100));
    Exact e(d);
    bool copies;
    auto f = pickRef(r, copies);
    size_t off = 0;
    mp::object_handle oh;
    Out o = doUnpack(e, off, oh, f, mp::unpack_limit(1 << 18, 1 << 18), (int)r.below(3));
    if ((st == mref::OK) != (o == O_OK)) fail("unpacking " + hex(d, 100) + " reported " + outName(o) + ", by the format it is " + (st == mref::OK ? "the value " + mref::show(rn) : std::string(st == mref::SHORT ? "incomplete" : "invalid")));
    if (st == mref::OK) {
        if (off != roff) fail(strf("unpacking stopped at offset %zu instead of %zu: ", off, roff) + hex(d, 100));
        c12::expectObj(oh.get(), rn, "unpacking " + hex(d, 100));
    } else if (pureTruncation && o != O_SHORT) fail(std::string("unpacking a truncated value reported ") + outName(o) + ": " + hex(d, 100));
    // the streaming unpacker agrees
    mp::unpacker u(f, nullptr, 16, mp::unpack_limit(1 << 18, 1 << 18));
    std::string res = "incomplete";
    size_t pos = 0;
    mp::object_handle so;
    while (pos < d.size() && res == "incomplete") {
        size_t k = std::min<size_t>(d.size() - pos, (size_t)r.range(1, 9));
        u.reserve_buffer(k);
        memcpy(u.buffer(), d.data() + pos, k);
        u.buffer_consumed(k);
        pos += k;
        try {
            if (u.next(so)) res = "value";
        } catch (mp::unpack_error&) { res = "error";
        } catch (std::bad_alloc&) { res = "error"; }
    }
    if (st == mref::OK) {
        if (res != "value") fail("the streaming unpacker reported " + res + " for " + hex(d, 100));
        c12::expectObj(so.get(), rn, "the streaming unpacker on " + hex(d, 100));
    } else if (st == mref::SHORT && res != "incomplete") fail("the streaming unpacker reported " + res + " for the incomplete " + hex(d, 100));
    else if ((st == mref::BAD || st == mref::LIMIT) && res != "error") fail("the streaming unpacker reported " + res + " for the invalid " + hex(d, 100));
    {
        Collect v;
        size_t o2 = 0;
        if (lim.arr >= (1 << 18) && st != mref::LIMIT) {
            bool ok = mp::parse(e.p, e.n, o2, v);
            bool good = ok && !v.bad && !v.shortData;
            if (good != (st == mref::OK)) fail("the visitor parser " + std::string(good ? "accepted " : "refused ") + hex(d, 100));
            if (good && (!mref::eq(v.root, rn) || o2 != roff)) fail("the visitor parser saw " + mref::show(v.root) + " in " + hex(d, 100));
        }
    }
    gOps++;
    metric(st == mref::OK ? "mutated_accepted" : "mutated_rejected");
}

static void measure(const Node& n, mref::Limits& m, size_t depth) {
    auto up = [](uint64_t& a, uint64_t b) { if (a == ~0ull || b > a) a = b; };
    switch (n.t) {
        case Node::STR: up(m.str, n.s.size()); break;
        case Node::BIN: up(m.bin, n.s.size()); break;
        case Node::EXT: up(m.ext, n.s.size() + 1); break;
        case Node::ARR: up(m.arr, n.c.size()); up(m.depth, depth); break;
        case Node::MAP: up(m.map, n.c.size() / 2); up(m.depth, depth); break;
        default: break;
    }
    for (auto& x : n.c) measure(x, m, depth + 1);
}
static void opLimit(Rng& r, int) {
    Node n = mref::random(r, 4, 0);
    if (r.chance(1, 3)) for (int64_t k = r.range(1, 40); k > 0; k--) n = r.chance(1, 2) ? Node::arr({n}) : Node::map({Node::integer(1), n});
    mref::Limits m;
    measure(n, m, 1);
    Rng w(r.next());
    std::string d = mref::encode(n, r.chance(1, 2) ? &w : nullptr);
    uint64_t* f[] = {&m.arr, &m.map, &m.str, &m.bin, &m.ext, &m.depth};
    size_t which = (size_t)r.below(6);
    mref::Limits l = m;
    uint64_t* lf[] = {&l.arr, &l.map, &l.str, &l.bin, &l.ext, &l.depth};
    bool tight = r.chance(1, 2);
    bool tooSmall = false;
    for (size_t i = 0; i < 6; i++) {
        if (*f[i] == ~0ull) *lf[i] = r.chance(1, 2) ? 0 : 0xffffffff;
        else *lf[i] = tight || r.chance(1, 2) ? *f[i] : 0xffffffff;
    }
    if (*f[which] != ~0ull && *f[which] > 0 && r.chance(2, 3)) { *lf[which] = *f[which] - 1; tooSmall = true; }
    mp::unpack_limit lim(l.arr, l.map, l.str, l.bin, l.ext, l.depth);
    phase("limits on " + mref::show(n));
    Exact e(d);
    size_t off = 0;
    mp::object_handle oh;
    bool copies;
    auto rf = pickRef(r, copies);
    Out o = doUnpack(e, off, oh, rf, lim, (int)r.below(3));
    std::string ls = strf("array %llu map %llu str %llu bin %llu ext %llu depth %llu", (unsigned long long)l.arr, (unsigned long long)l.map, (unsigned long long)l.str, (unsigned long long)l.bin, (unsigned long long)l.ext, (unsigned long long)l.depth);
    if (tooSmall && o != O_LIMIT) fail("the limits (" + ls + ") were not enforced on " + mref::show(n) + ": " + outName(o));
    if (!tooSmall && o != O_OK) fail("the limits (" + ls + ") refused " + mref::show(n) + ": " + outName(o));
    if (o == O_OK) c12::expectObj(oh.get(), n, "unpacking with limits");
    // streaming with limits
    mp::unpacker u(rf, nullptr, 64, lim);
    u.reserve_buffer(d.size());
    memcpy(u.buffer(), d.data(), d.size());
    u.buffer_consumed(d.size());
    std::string res;
    try {
        res = u.next(oh) ? "value" : "incomplete";
    } catch (mp::size_overflow&) { res = "overflow";
    } catch (mp::unpack_error&) { res = "error"; }
    if (res != (tooSmall ? "overflow" : "value")) fail("the streaming unpacker with the limits (" + ls + ") reported " + res + " for " + mref::show(n));
    gOps++;
    metric(tooSmall ? "limits_exceeded" : "limits_met");
}

template <typename T> void convInt(const mp::object& o, const Node& n, const char* name) {
    bool threw = false;
    T v = 0;
    try {
        v = o.as<T>();
    } catch (mp::type_error&) { threw = true; }
    bool fits = n.t == Node::UINT ? n.u <= (uint64_t)std::numeric_limits<T>::max() : n.t == Node::NEG ? std::numeric_limits<T>::is_signed && (int64_t)n.u >= (int64_t)std::numeric_limits<T>::min() : false;
    if (fits && (threw || (uint64_t)(int64_t)v != n.u)) fail("converting " + mref::show(n) + " to " + name + (threw ? " was refused" : " gave " + std::to_string((long long)v)));
    if (!fits && !threw) fail("converting " + mref::show(n) + " to " + name + " gave " + std::to_string((long long)v));
}
template <typename T> bool asOk(const mp::object& o, T& v) {
    try { v = o.as<T>(); return true; } catch (mp::type_error&) { return false; }
}
static void opConvert(Rng& r, int) {
    Node n = mref::random(r, 2, 0);
    Rng w(r.next());
    std::string d = mref::encode(n, &w);
    phase("convert " + mref::show(n));
    mp::object_handle oh = mp::unpack(d.data(), d.size());
    const mp::object& o = oh.get();
    convInt<int8_t>(o, n, "int8"); convInt<uint8_t>(o, n, "uint8"); convInt<int16_t>(o, n, "int16"); convInt<uint16_t>(o, n, "uint16");
    convInt<int32_t>(o, n, "int32"); convInt<uint32_t>(o, n, "uint32"); convInt<int64_t>(o, n, "int64"); convInt<uint64_t>(o, n, "uint64");
    convInt<char>(o, n, "char"); convInt<signed char>(o, n, "signed char"); convInt<long long>(o, n, "long long"); convInt<unsigned long>(o, n, "unsigned long");
    bool b = false;
    if (asOk(o, b) != (n.t == Node::BOOL) || (n.t == Node::BOOL && b != (n.u != 0))) fail("conversion of " + mref::show(n) + " to bool");
    std::string s;
    bool text = n.t == Node::STR || n.t == Node::BIN;
    if (asOk(o, s) != text || (text && s != n.s)) fail("conversion of " + mref::show(n) + " to string");
    std::vector<char> vc;
    if (n.t != Node::ARR && (asOk(o, vc) != text || (text && std::string(vc.begin(), vc.end()) != n.s))) fail("conversion of " + mref::show(n) + " to vector<char>");
    std::vector<unsigned char> vu;
    if (n.t != Node::ARR && (asOk(o, vu) != text || (text && std::string(vu.begin(), vu.end()) != n.s))) fail("conversion of " + mref::show(n) + " to vector<unsigned char>");
    double dv = 0;
    bool num = n.t == Node::UINT || n.t == Node::NEG || n.t == Node::F32 || n.t == Node::F64;
    if (asOk(o, dv) != num) fail("conversion of " + mref::show(n) + " to double");
    if (num) {
        double want = n.t == Node::UINT ? (double)n.u : n.t == Node::NEG ? (double)(int64_t)n.u : n.f();
        if (!Eq<double>::eq(dv, want)) fail("conversion of " + mref::show(n) + " to double gave " + std::to_string(dv));
    }
    auto allInt = [&](int64_t lo, uint64_t hi) { for (auto& x : n.c) if (!(x.t == Node::UINT && x.u <= hi) && !(x.t == Node::NEG && (int64_t)x.u >= lo)) return false; return true; };
    std::vector<int16_t> vi;
    bool e1 = n.t == Node::ARR && allInt(-32768, 32767);
    if (asOk(o, vi) != e1) fail("conversion of " + mref::show(n) + " to vector<int16>");
    if (e1) { if (vi.size() != n.c.size()) fail("vector<int16> has another size"); for (size_t i = 0; i < vi.size(); i++) if ((uint64_t)(int64_t)vi[i] != n.c[i].u) fail("conversion of " + mref::show(n) + " to vector<int16>"); }
    std::list<std::string> ls;
    bool e2 = n.t == Node::ARR;
    for (auto& x : n.c) e2 = e2 && (x.t == Node::STR || x.t == Node::BIN);
    if (asOk(o, ls) != e2 || (e2 && ls.size() != n.c.size())) fail("conversion of " + mref::show(n) + " to list<string>");
    std::map<int64_t, mp::object> mo;
    bool e3 = n.t == Node::MAP;
    for (size_t i = 0; i < n.c.size(); i += 2) e3 = e3 && ((n.c[i].t == Node::UINT && n.c[i].u <= INT64_MAX) || n.c[i].t == Node::NEG);
    if (asOk(o, mo) != e3) fail("conversion of " + mref::show(n) + " to map<int64,object>");
    std::pair<mp::object, mp::object> pr;
    bool e4 = n.t == Node::ARR && n.c.size() == 2;
    if (asOk(o, pr) != e4) fail("conversion of " + mref::show(n) + " to pair");
    std::optional<int64_t> oi;
    bool isInt = (n.t == Node::UINT && n.u <= INT64_MAX) || n.t == Node::NEG;
    if (asOk(o, oi) != (isInt || n.t == Node::NIL) || oi.has_value() != isInt) fail("conversion of " + mref::show(n) + " to optional<int64>");
    mp::type::ext ex;
    if (asOk(o, ex) != (n.t == Node::EXT) || (n.t == Node::EXT && (ex.type() != n.ext || std::string(ex.data(), ex.size()) != n.s))) fail("conversion of " + mref::show(n) + " to ext");
    int keep = 12345;
    bool conv;
    try { conv = o.convert_if_not_nil(keep); } catch (mp::type_error&) { conv = true; }
    if (n.t == Node::NIL && (conv || keep != 12345)) fail("convert_if_not_nil converted nil");
    gOps++;
    metric("conversions");
}
static void opPair(Rng& r, int) {  // equality of objects is equality of values
    Node a = mref::random(r, 2, 0), b = a;
    if (r.chance(2, 3)) {
        std::vector<Node*> all;
        std::function<void(Node&)> walk = [&](Node& n) { all.push_back(&n); for (auto& x : n.c) walk(x); };
        walk(b);
        Node* t = all[(size_t)r.below((int64_t)all.size())];
        if (r.chance(1, 2) && !t->s.empty()) t->s[(size_t)r.below((int64_t)t->s.size())] ^= 1;
        else if (r.chance(1, 2) && (t->t == Node::UINT)) t->u ^= 1;
        else *t = mref::random(r, 1, 0);
    }
    std::string da = mref::encode(a), db = mref::encode(b);
    mp::object_handle x = mp::unpack(da.data(), da.size()), y = mp::unpack(db.data(), db.size());
    std::function<int(const Node&, const Node&)> same = [&](const Node& p, const Node& q) -> int {
        if (p.t != q.t) return 0;
        if (p.t == Node::F32 || p.t == Node::F64) return p.f() == q.f();
        if (p.s != q.s || p.u != q.u || p.ext != q.ext || p.c.size() != q.c.size()) return 0;
        for (size_t i = 0; i < p.c.size(); i++) if (!same(p.c[i], q.c[i])) return 0;
        return 1;
    };
    phase("compare");
    if ((x.get() == y.get()) != (same(a, b) != 0) || (x.get() != y.get()) == (same(a, b) != 0)) fail("comparing " + mref::show(a) + " with " + mref::show(b));
    gOps++;
}
static void opPrim(Rng& r, int) {  // fixed-width primitives, timestamps, long lengths
    mp::sbuffer b;
    mp::packer<mp::sbuffer> p(b);
    std::string want;
    mref::Enc e;
    uint64_t v = r.chance(1, 2) ? Gen<uint64_t>::make(r, 0) : r.next();
    int kind = (int)r.below(12);
    phase(strf("primitive %d %llu", kind, (unsigned long long)v));
    switch (kind) {
        case 0: p.pack_fix_uint8((uint8_t)v); e.put(0xcc); e.be((uint8_t)v, 1); break;
        case 1: p.pack_fix_uint16((uint16_t)v); e.put(0xcd); e.be((uint16_t)v, 2); break;
        case 2: p.pack_fix_uint32((uint32_t)v); e.put(0xce); e.be((uint32_t)v, 4); break;
        case 3: p.pack_fix_uint64(v); e.put(0xcf); e.be(v, 8); break;
        case 4: p.pack_fix_int8((int8_t)v); e.put(0xd0); e.be((uint8_t)v, 1); break;
        case 5: p.pack_fix_int16((int16_t)v); e.put(0xd1); e.be((uint16_t)v, 2); break;
        case 6: p.pack_fix_int32((int32_t)v); e.put(0xd2); e.be((uint32_t)v, 4); break;
        case 7: p.pack_fix_int64((int64_t)v); e.put(0xd3); e.be(v, 8); break;
        case 8: {  // headers of any length
            uint32_t n = (uint32_t)(v >> 32);
            int k = (int)r.below(4);
            if (k == 0) { p.pack_array(n); e.put(n < 16 ? 0x90 | n : n < 65536 ? 0xdc : 0xdd); if (n >= 16) e.be(n, n < 65536 ? 2 : 4); }
            else if (k == 1) { p.pack_map(n); e.put(n < 16 ? 0x80 | n : n < 65536 ? 0xde : 0xdf); if (n >= 16) e.be(n, n < 65536 ? 2 : 4); }
            else if (k == 2) { p.pack_str(n); e.put(n < 32 ? 0xa0 | n : n < 256 ? 0xd9 : n < 65536 ? 0xda : 0xdb); if (n >= 32) e.be(n, n < 256 ? 1 : n < 65536 ? 2 : 4); }
            else { p.pack_bin(n); e.put(n < 256 ? 0xc4 : n < 65536 ? 0xc5 : 0xc6); e.be(n, n < 256 ? 1 : n < 65536 ? 2 : 4); }
            break;
        }
        case 9: {
            uint32_t n = (uint32_t)(r.chance(1, 2) ? r.pick(std::vector<int64_t>{0, 1, 2, 3, 4, 8, 16, 17, 255, 256, 65535, 65536}) : (int64_t)(v >> 33));
            int8_t t = (int8_t)r.next();
            p.pack_ext(n, t);
            int fix = n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : n == 16 ? 0xd8 : 0;
            if (fix) e.put((unsigned)fix);
            else { e.put(n < 256 ? 0xc7 : n < 65536 ? 0xc8 : 0xc9); e.be(n, n < 256 ? 1 : n < 65536 ? 2 : 4); }
            e.put((unsigned char)t);
            break;
        }
        case 10: { double d = Gen<double>::make(r, 0); p.pack_double(d); Node n = canon(Node::f64(d)); e.one(n); break; }
        default: { float d = Gen<float>::make(r, 0); if (d != d) return; p.pack_float(d); Node n = canon(Node::f32(d)); e.one(n); break; }
    }
    std::string got(b.data(), b.size());
    if (got != e.out) fail(strf("packing primitive %d of %llu gave ", kind, (unsigned long long)v) + hex(got, 40) + " instead of " + hex(e.out, 40));
    gOps++;
}

bool vpValid(const Case&) { return true; }
void vpRun(const Case& c) {
    if (types().empty()) { addTypes1(); addTypes2(); addTypes3(); addTypes4(); addTypes5(); addTypes6(); addTypes7(); }
    Ctx x;
    x.limit = 1LL << 40;
    gOps = 0;
    int typed = 0;
    for (auto& o : c.ops) {
        Rng r((uint64_t)o.at(0));
        int big = (int)o.at(1);
        try {
            if (o.k == "tree") opTree(r, big);
            else if (o.k == "stream") opStream(r, big);
            else if (o.k == "mutate") opMutate(r, big);
            else if (o.k == "limit") opLimit(r, big);
            else if (o.k == "convert") opConvert(r, big);
            else if (o.k == "pair") opPair(r, big);
            else if (o.k == "prim") opPrim(r, big);
            else if (o.k == "api") { c12::opApi(r); gOps++; }
            else if (o.k == "conv") { c12::opConv(r); gOps++; }
            else if (o.k == "typed") { types()[(size_t)(o.at(2) % (int64_t)types().size())].run(x, r, big ? 3 : (int)(o.at(2) % 3), 0); typed++; }
        } catch (std::exception& e) {
            fail(std::string("an exception escaped: ") + e.what());
        }
    }
    metric("compared", gOps);
    if (gOps + typed >= 5) nontrivial();
}
