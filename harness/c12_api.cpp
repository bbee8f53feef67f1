// C12: the parts of the codec around the format: output buffers, zones, the streaming unpacker's buffer management and moves,
// reference types, iteration over objects, printing.
#include "c02_values.h"
#include "c12_obj.h"
#include <veigar/msgpack/fbuffer.hpp>
#include <sstream>
#include <stdio.h>
#if __cplusplus >= 201703L
#include <string_view>
#endif
using namespace vp;
using mref::Node;
namespace mp = veigar_msgpack;

namespace c12 {
static std::string join(const mp::vrefbuffer& v) {
    std::string s;
    for (size_t i = 0; i < v.vector_size(); i++) s.append((const char*)v.vector()[i].iov_base, v.vector()[i].iov_len);
    return s;
}
// Two vectored buffers, written, migrated into each other and cleared; the model is the bytes each one holds.
static void vref(Rng& r) {
    std::vector<std::unique_ptr<std::string>> arena;  // referenced data stays in place
    struct B { std::unique_ptr<mp::vrefbuffer> b; std::string m; size_t ref; };
    B x[2];
    for (auto& b : x) {
        b.ref = (size_t)r.range(1, 80);
        b.b.reset(new mp::vrefbuffer(b.ref, r.chance(1, 3) ? 8192 : (size_t)r.range(1, 300)));
    }
    int64_t n = r.range(5, 60);
    std::string trace;
    for (int64_t i = 0; i < n; i++) {
        int k = (int)r.below(2);
        B &a = x[k], &o = x[1 - k];
        std::string data = r.bytes((size_t)(r.chance(1, 4) ? r.small(400) : r.small(40)), 0);
        switch (r.weighted({6, 4, 4, 2, 1})) {
            case 0: {
                // short data is copied: the source may change afterwards
                if (data.size() < std::max<size_t>(a.ref, 10)) {
                    std::string tmp = data;
                    a.b->write(tmp.data(), tmp.size());
                    std::fill(tmp.begin(), tmp.end(), '#');
                } else { arena.emplace_back(new std::string(data)); a.b->write(arena.back()->data(), data.size()); }
                a.m += data;
                trace += strf("w%d:%zu ", k, data.size());
                break;
            }
            case 1: arena.emplace_back(new std::string(data)); a.b->append_ref(arena.back()->data(), data.size()); a.m += data; trace += strf("r%d:%zu ", k, data.size()); break;
            case 2: { std::string tmp = data; a.b->append_copy(tmp.data(), tmp.size()); a.m += data; trace += strf("c%d:%zu ", k, data.size()); std::fill(tmp.begin(), tmp.end(), '#'); break; }
            case 3: a.b->migrate(o.b.get()); o.m += a.m; a.m.clear(); trace += strf("m%d ", k); break;
            default: a.b->clear(); a.m.clear(); trace += strf("x%d ", k); break;
        }
        phase("vectored buffers: " + trace);
        for (auto& b : x) if (join(*b.b) != b.m) fail(strf("a vectored buffer holds %zu bytes that are not the %zu bytes written to it, after ", join(*b.b).size(), b.m.size()) + trace);
        if (r.chance(1, 12)) { a.b.reset(new mp::vrefbuffer(a.ref, (size_t)r.range(1, 100))); a.m.clear(); if (join(*o.b) != o.m) fail("a vectored buffer changed when the one it was migrated from was destroyed: " + trace); trace += strf("n%d ", k); }
    }
}
static void sbuf(Rng& r) {
    mp::sbuffer b((size_t)r.small(100));
    std::string m;
    for (int64_t n = r.range(3, 40); n > 0; n--) {
        std::string d = r.bytes((size_t)r.small(300), 0);
        switch (r.weighted({6, 1, 1, 1, 1})) {
            case 0: b.write(d.data(), d.size()); m += d; break;
            case 1: b.clear(); m.clear(); break;
            case 2: {
                size_t sz = b.size();
                char* p = b.release();
                if (sz && std::string(p, sz) != m) fail("a released buffer does not hold what was written");
                free(p);
                m.clear();
                break;
            }
            case 3: { mp::sbuffer c(std::move(b)); if (b.size() != 0) fail("a buffer still has a size after it was moved"); b = std::move(c); break; }
            default: { mp::sbuffer c((size_t)r.small(50)); c.write(d.data(), d.size()); b = std::move(c); m = d; break; }
        }
        if (b.size() != m.size() || (m.size() && memcmp(b.data(), m.data(), m.size()))) fail(strf("a buffer holds %zu bytes that are not the %zu bytes written to it", b.size(), m.size()));
    }
}
static void filebuf(Rng& r) {
    char* p = nullptr;
    size_t sz = 0;
    FILE* f = open_memstream(&p, &sz);
    std::string want;
    std::string err;
    {
        mp::fbuffer fb(f);
        mp::packer<mp::fbuffer> pk(fb);
        try {
            for (int64_t n = r.range(1, 6); n > 0; n--) {
                Node v = mref::random(r, 2, 0);
                std::string d = mref::encode(v);
                mp::object_handle oh = mp::unpack(d.data(), d.size());
                mp::sbuffer sb;
                mp::pack(sb, oh.get());
                want.append(sb.data(), sb.size());
                phase("file buffer " + mref::show(v));
                pk.pack(oh.get());
            }
        } catch (std::exception& e) { err = e.what(); }
    }
    fclose(f);
    std::string got = p ? std::string(p, sz) : std::string();
    free(p);
    if (!err.empty()) fail("packing into a file buffer threw " + err + ", after " + hex(got, 40));
    if (got != want) fail("a file buffer wrote " + hex(got, 60) + " instead of " + hex(want, 60));
}

static int64_t gLive;
static std::vector<int64_t>* gOrder;
struct Tracked {
    std::string s;
    int64_t id;
    Tracked(int64_t i, int64_t size, int64_t boom) : s((size_t)size, (char)('a' + i % 26)), id(i) { if (boom) throw std::runtime_error("boom"); gLive++; }
    ~Tracked() { gLive--; gOrder->push_back(id); }
    Tracked(const Tracked&) = delete;
};
static void finalized(void* p) { gLive--; gOrder->push_back(*(int64_t*)p); }
// Zones: aligned blocks that do not overlap; every object destroyed once, the latest first, when the zone is cleared, replaced or destroyed.
static void zones(Rng& r) {
    std::vector<int64_t> order;
    gLive = 0;
    gOrder = &order;
    std::vector<std::unique_ptr<int64_t>> ids;
    struct Block { char* p; size_t n; char c; };
    struct Z { std::unique_ptr<mp::zone> z; std::vector<int64_t> objs; std::vector<Block> bl; };
    std::vector<Z> zs((size_t)r.range(1, 3));
    auto fresh = [&]() { return new mp::zone(r.chance(1, 3) ? 8192 : (size_t)r.range(1, 400)); };
    for (auto& z : zs) z.z.reset(fresh());
    int64_t next = 0;
    std::string trace;
    auto gone = [&](Z& z, const char* what) {
        std::vector<int64_t> want(z.objs.rbegin(), z.objs.rend());
        if (order != want) fail(strf("%s ran %zu finalizers out of %zu, or not the latest first: ", what, order.size(), want.size()) + trace);
        order.clear();
        z.objs.clear();
        z.bl.clear();
    };
    auto intact = [&]() {
        for (auto& z : zs) for (auto& b : z.bl) for (size_t i = 0; i < b.n; i++) if (b.p[i] != b.c) fail("a block of a zone changed: " + trace);
    };
    for (int64_t n = r.range(5, 50); n > 0; n--) {
        Z& z = zs[(size_t)r.below((int64_t)zs.size())];
        size_t zi = (size_t)(&z - zs.data());
        switch (r.weighted({6, 3, 5, 2, 2, 2, 2, 1, 1})) {
            case 0: case 2: {
                size_t align = (size_t)1 << r.below(7), sz = (size_t)r.small(r.chance(1, 8) ? 2000 : 60) + 1;
                bool plain = r.chance(1, 5);
                char* p = (char*)(plain ? z.z->allocate_no_align(sz) : z.z->allocate_align(sz, align));
                trace += strf("a%zu:%zu/%zu ", zi, sz, plain ? 1 : align);
                if (!plain && ((uintptr_t)p & (align - 1))) fail(strf("a block for alignment %zu is at %p: ", align, (void*)p) + trace);
                char c = (char)r.next();
                memset(p, c, sz);
                z.bl.push_back({p, sz, c});
                break;
            }
            case 1: {
                bool boom = r.chance(1, 5);
                trace += strf("o%zu%s ", zi, boom ? "!" : "");
                int64_t id = next++;
                try {
                    Tracked* t = z.z->allocate<Tracked, int64_t, int64_t, int64_t>(id, r.small(100), boom);
                    if (boom) fail("a constructor's exception was lost");
                    if (t->id != id || (uintptr_t)t % alignof(Tracked)) fail("an object in a zone is misplaced: " + trace);
                    z.objs.push_back(id);
                } catch (std::runtime_error&) {}
                break;
            }
            case 3: ids.emplace_back(new int64_t(next++)); gLive++; z.z->push_finalizer(finalized, ids.back().get()); z.objs.push_back(*ids.back()); trace += strf("f%zu ", zi); break;
            case 4: trace += strf("c%zu ", zi); z.z->clear(); gone(z, "clearing a zone"); break;
            case 5: trace += strf("d%zu ", zi); z.z.reset(); gone(z, "destroying a zone"); z.z.reset(fresh()); break;
            case 6: {
                Z& o = zs[(size_t)r.below((int64_t)zs.size())];
                if (&o == &z) break;
                trace += strf("s%zu%zu ", zi, (size_t)(&o - zs.data()));
                z.z->swap(*o.z);
                std::swap(z.objs, o.objs);
                std::swap(z.bl, o.bl);
                if (!order.empty()) fail("swapping zones ran finalizers: " + trace);
                break;
            }
            case 7: {
                trace += strf("=%zu ", zi);
                Z& o = zs[(size_t)r.below((int64_t)zs.size())];
                if (&o == &z) break;
                *z.z = std::move(*o.z);
                gone(z, "assigning over a zone");
                z.objs = std::move(o.objs);
                z.bl = std::move(o.bl);
                o.objs.clear();
                o.bl.clear();
                o.z.reset(fresh());
                if (!order.empty()) fail("destroying a zone that was moved away ran finalizers: " + trace);
                break;
            }
            default: {
                trace += strf("m%zu ", zi);
                mp::zone* nz = new mp::zone(std::move(*z.z));
                z.z.reset(nz);
                if (!order.empty()) fail("moving a zone ran finalizers: " + trace);
                break;
            }
        }
        phase("zones: " + trace.substr(trace.size() > 150 ? trace.size() - 150 : 0));
        intact();
        int64_t live = 0;
        for (auto& q : zs) live += (int64_t)q.objs.size();
        if (live != gLive) fail(strf("%lld objects are alive in zones instead of %lld: ", (long long)gLive, (long long)live) + trace);
    }
    for (auto& z : zs) { z.z.reset(); gone(z, "destroying a zone at the end"); }
}

static bool refSome(mp::type::object_type, std::size_t n, void*) { return n > 6; }
static bool refNone(mp::type::object_type, std::size_t, void*) { return false; }
static bool refAll(mp::type::object_type, std::size_t, void*) { return true; }
// A byte stream of values, raw sections (skipped by the reader) and broken values (removed by the reader), fed in pieces to a streaming
// unpacker that is moved now and then; sizes and the unparsed bytes it reports are those of the stream.
static void unpackerApi(Rng& r) {
    mp::unpack_reference_func fs[] = {refSome, refNone, refAll};
    mp::unpack_reference_func f = fs[r.below(3)];
    size_t init = (size_t)r.range(1, r.chance(1, 3) ? 4096 : 80);
    std::unique_ptr<mp::unpacker> u(new mp::unpacker(f, nullptr, init));
    std::vector<std::pair<mp::object_handle, Node>> kept;
    std::string trace;
    auto feed = [&](const std::string& d, size_t& pos, size_t n) {
        n = std::min(n, d.size() - pos);
        u->reserve_buffer(n);
        memcpy(u->buffer(), d.data() + pos, n);
        u->buffer_consumed(n);
        pos += n;
    };
    for (int64_t items = r.range(2, 8); items > 0; items--) {
        int kind = r.weighted({6, 2, 2, 1});
        if (kind == 0) {  // values, in pieces
            std::vector<Node> vs;
            std::string d;
            std::vector<size_t> ends;
            for (int64_t k = r.range(1, 4); k > 0; k--) { vs.push_back(mref::random(r, 3, 0)); Rng w(r.next()); d += mref::encode(vs.back(), &w); ends.push_back(d.size()); }
            size_t pos = 0, done = 0;
            trace += strf("v%zu/%zu ", vs.size(), d.size());
            phase("unpacker: " + trace);
            while (pos < d.size()) {
                feed(d, pos, r.chance(1, 4) ? d.size() : (size_t)r.range(1, 30));
                if (r.chance(1, 6)) { u.reset(new mp::unpacker(std::move(*u))); trace += "move "; phase("unpacker: " + trace); }
                else if (r.chance(1, 6)) {
                    std::unique_ptr<mp::unpacker> v(new mp::unpacker(refAll, nullptr, (size_t)r.range(1, 60)));
                    // the unpacker that is assigned over holds the beginning of another message
                    std::string left = mref::encode(Node::arr({Node::str("left over"), Node::str("more text"), Node::str("the end of it")}));
                    v->reserve_buffer(left.size());
                    memcpy(v->buffer(), left.data(), left.size() - 3);
                    v->buffer_consumed(left.size() - 3);
                    mp::object_handle oh;
                    if (v->next(oh)) fail("an incomplete value was returned");
                    *v = std::move(*u);
                    u = std::move(v);
                    trace += "assign ";
                    phase("unpacker: " + trace);
                }
                size_t start = done ? ends[done - 1] : 0;
                while (true) {
                    mp::object_handle oh;
                    bool referenced = false;
                    bool ok = r.chance(1, 2) ? u->next(oh) : u->next(oh, referenced);
                    if (!ok) {
                        if (oh.get().type != mp::type::NIL || oh.zone()) fail("a value that is not complete left something in the result: " + trace);
                        break;
                    }
                    if (done >= vs.size() || ends[done] > pos) fail("a value was returned before it was complete: " + trace);
                    if (referenced && f == refNone) fail("an unpacker that copies reports references: " + trace);
                    expectObj(oh.get(), vs[done], "streaming unpacker: " + trace);
                    kept.emplace_back(std::move(oh), vs[done]);
                    start = ends[done++];
                }
                if (done < ends.size() && ends[done] <= pos) fail("a complete value was not returned: " + trace);
                if (u->nonparsed_size() > pos - start) fail(strf("%zu bytes are reported as not parsed out of %zu: ", u->nonparsed_size(), pos - start) + trace);
                if (u->parsed_size() + u->nonparsed_size() != pos - start) fail(strf("%zu bytes parsed and %zu not parsed, out of %zu: ", u->parsed_size(), u->nonparsed_size(), pos - start) + trace);
                if (u->message_size() != pos - start) fail(strf("the size of the message is %zu instead of %zu: ", u->message_size(), pos - start) + trace);
                size_t np = u->nonparsed_size();
                if (np && memcmp(u->nonparsed_buffer(), d.data() + pos - np, np)) fail("the bytes that are not parsed are not those of the stream: " + trace);
            }
        } else if (kind == 1) {  // a raw section: the reader takes it from the buffer itself
            std::string d = r.bytes((size_t)r.small(60), 0);
            size_t pos = 0;
            trace += strf("raw%zu ", d.size());
            phase("unpacker: " + trace);
            while (pos < d.size()) {
                feed(d, pos, (size_t)r.range(1, 30));
                size_t np = u->nonparsed_size();
                if (!np || memcmp(u->nonparsed_buffer(), d.data() + pos - np, np)) fail("a raw section is not what the stream contains: " + trace);
                u->skip_nonparsed_buffer(r.chance(1, 2) ? np : (size_t)r.range(1, (int64_t)np));
            }
            u->skip_nonparsed_buffer(u->nonparsed_size());
            if (u->nonparsed_size()) fail("skipped bytes are still there: " + trace);
            u->reset();
        } else if (kind == 2) {  // an incomplete or broken value, dropped by the reader
            Node v = mref::random(r, 3, 0);
            std::string d = mref::encode(v);
            bool broken = r.chance(1, 2);
            if (broken) d = std::string(1, (char)0x93) + d + std::string(1, (char)0xc1);
            else d.resize(d.size() - 1);
            trace += strf("%s%zu ", broken ? "bad" : "part", d.size());
            phase("unpacker: " + trace);
            size_t pos = 0;
            bool threw = false;
            while (pos < d.size() && !threw) {
                feed(d, pos, (size_t)r.range(1, 30));
                mp::object_handle oh;
                try { if (u->next(oh)) fail("a broken value was returned: " + trace); } catch (mp::parse_error&) { threw = true; }
            }
            if (threw != broken) fail("a broken value was not reported: " + trace);
            u->remove_nonparsed_buffer();
            u->reset();
            if (r.chance(1, 2)) u->reset_zone();
            if (u->nonparsed_size() || u->message_size()) fail("removed bytes are still there: " + trace);
        } else { kept.clear(); trace += "drop "; }
    }
    if (r.chance(1, 2)) u.reset();
    for (auto& k : kept) expectObj(k.first.get(), k.second, "a value of the streaming unpacker, later: " + trace);
}

// Types that refer to bytes elsewhere.
static void refs(Rng& r) {
    std::string s = r.bytes((size_t)(r.chance(1, 20) ? r.range(65530, 65540) : c02::lenOf(r, 2)), (int)r.below(3));
    std::string z = s;
    z.erase(std::remove(z.begin(), z.end(), '\0'), z.end());
    mp::sbuffer b;
    mp::packer<mp::sbuffer> p(b);
    std::string want;
    auto check = [&](const char* what) {
        std::string got(b.data(), b.size());
        if (got != want) fail(std::string("packing a ") + what + strf(" of %zu bytes gave ", s.size()) + hex(got, 20) + " instead of " + hex(want, 20));
        b.clear();
    };
    auto obj = [&](const mp::object& o, const Node& n, const char* what) { expectObj(o, n, std::string("an object made of a ") + what); };
    phase(strf("references to %zu bytes", s.size()));
    mp::zone zn((size_t)r.range(1, 500));
    { mp::type::raw_ref v(s.data(), (uint32_t)s.size()); p.pack(v); want = mref::encode(Node::bin(s)); check("raw_ref"); obj(mp::object(v), Node::bin(s), "raw_ref"); obj(mp::object(v, zn), Node::bin(s), "raw_ref");
      mp::type::raw_ref w = mp::object(v).as<mp::type::raw_ref>(); if (!(w == v) || w != v || w < v || w > v || w.str() != s) fail("a raw_ref is not equal to itself"); }
    { mp::type::v4raw_ref v(s.data(), (uint32_t)s.size()); p.pack(v);
      mref::Enc e; size_t n = s.size(); e.put((unsigned)(n < 32 ? 0xa0 | n : n < 65536 ? 0xda : 0xdb)); if (n >= 32) e.be(n, n < 65536 ? 2 : 4); e.out += s; want = e.out; check("v4raw_ref"); obj(mp::object(v), Node::str(s), "v4raw_ref"); }
    { p.pack(z.c_str()); want = mref::encode(Node::str(z)); check("char pointer"); obj(mp::object(z.c_str()), Node::str(z), "char pointer"); obj(mp::object(z.c_str(), zn), Node::str(z), "char pointer"); }
#if __cplusplus >= 201703L
    { std::string_view v(s); p.pack(v); want = mref::encode(Node::str(s)); check("string_view"); obj(mp::object(v), Node::str(s), "string_view"); if (mp::object(v).as<std::string_view>() != v) fail("a string_view came back different"); }
#endif
    { std::vector<char> v(s.begin(), s.end()); p.pack(v); want = mref::encode(Node::bin(s)); check("vector<char>"); obj(mp::object(v), Node::bin(s), "vector<char>");
      p.pack(mp::type::make_array_ref(v)); Node n; n.t = Node::ARR; for (char c : s) n.c.push_back(Node::integer(c)); want = mref::encode(n); check("array_ref<vector<char>>"); obj(mp::object(mp::type::make_array_ref(v), zn), n, "array_ref"); }
    { int8_t t = (int8_t)r.next(); mp::type::ext v(t, s.data(), (uint32_t)s.size()); Node n; n.t = Node::EXT; n.ext = t; n.s = s; p.pack(v); want = mref::encode(n); check("ext"); obj(mp::object(v, zn), n, "ext");
      mp::type::ext_ref er = mp::object(v, zn).as<mp::type::ext_ref>(); if (er.type() != t || er.size() != s.size() || memcmp(er.data(), s.data(), s.size())) fail("an ext_ref came back different"); p.pack(er); check("ext_ref");
      mp::type::ext back = mp::object(er, zn).as<mp::type::ext>(); if (!(back == v)) fail("an ext came back different"); }
    { uint64_t v = c02::Gen<uint64_t>::make(r, 0); p.pack(mp::type::fix_uint64(v)); mref::Enc e; e.put(0xcf); e.be(v, 8); want = e.out; check("fix_uint64");
      p.pack(mp::type::fix_int32((int32_t)v)); mref::Enc g; g.put(0xd2); g.be((uint32_t)v, 4); want = g.out; check("fix_int32");
      p.pack(mp::type::fix_int8((int8_t)v)); mref::Enc h; h.put(0xd0); h.be((uint8_t)v, 1); want = h.out; check("fix_int8");
      p.pack(mp::type::fix_uint16((uint16_t)v)); mref::Enc k; k.put(0xcd); k.be((uint16_t)v, 2); want = k.out; check("fix_uint16");
      obj(mp::object(mp::type::fix_int32((int32_t)v)), Node::integer((int32_t)v), "fix_int32");
      if (mp::object(v).as<mp::type::fix_uint64>().get() != v) fail("a fix_uint64 came back different"); }
}
// Iteration over arrays and maps, copies of objects between zones, printing.
static void objects(Rng& r) {
    Node n = mref::random(r, 3, 0);
    std::string d = mref::encode(n);
    mp::object_handle oh = mp::unpack(d.data(), d.size());
    phase("objects " + mref::show(n));
    std::function<Node(const mp::object&)> walk = [&](const mp::object& o) {
        Node x;
        if (o.type == mp::type::ARRAY) { x.t = Node::ARR; for (auto& e : o.via.array) x.c.push_back(walk(e)); return x; }
        if (o.type == mp::type::MAP) { x.t = Node::MAP; for (auto& e : o.via.map) { x.c.push_back(walk(e.key)); x.c.push_back(walk(e.val)); } return x; }
        mp::sbuffer b;
        mp::pack(b, o);
        size_t off = 0;
        std::string s(b.data(), b.size());
        if (mref::decode(s, off, x) != mref::OK) fail("an object packs to " + hex(s, 40));
        return x;
    };
    Node w = walk(oh.get());
    if (mref::encode(w) != [&] { mp::sbuffer b; mp::pack(b, oh.get()); return std::string(b.data(), b.size()); }()) fail("iterating over " + mref::show(n) + " visits " + mref::show(w));
    std::ostringstream os;
    os << oh.get();
    if (os.str().empty()) fail("an object prints as nothing");
    // objects made of objects
    mp::zone z((size_t)r.range(1, 300));
    std::vector<mp::object> two = {oh.get(), oh.get()};
    mp::object arr(two, z);
    Node wantArr;
    wantArr.t = Node::ARR;
    wantArr.c = {n, n};
    expectObj(arr, wantArr, "an array of objects");
    std::map<std::string, mp::object> mm = {{"a", oh.get()}, {"b", arr}};
    mp::object m(mm, z);
    Node wantMap;
    wantMap.t = Node::MAP;
    wantMap.c = {Node::str("a"), n, Node::str("b"), wantArr};
    expectObj(m, wantMap, "a map of objects");
    mp::object_handle c = mp::clone(m);
    z.clear();
    oh = mp::object_handle();
    std::fill(d.begin(), d.end(), '#');
    expectObj(c.get(), wantMap, "a clone of a map of objects, after the original is gone");
    if (c->as<std::map<std::string, mp::object>>().size() != 2) fail("a map of objects came back with another size");
}
// The events of a value, as the visitor interface reports them.
struct Events {
    std::vector<std::string> seen;
    size_t stopAt = ~(size_t)0;
    bool after = false, shortData = false, bad = false;
    bool ev(const std::string& e) {
        if (seen.size() > stopAt) after = true;
        seen.push_back(e);
        return seen.size() <= stopAt;
    }
    static std::string f(double d) { uint64_t u; memcpy(&u, &d, 8); return mref::isnanBits(u) ? "nan" : strf("%016llx", (unsigned long long)u); }
    bool visit_nil() { return ev("nil"); }
    bool visit_boolean(bool v) { return ev(v ? "true" : "false"); }
    bool visit_positive_integer(uint64_t v) { return ev(strf("%llu", (unsigned long long)v)); }
    bool visit_negative_integer(int64_t v) { return ev(strf("%lld", (long long)v)); }
    bool visit_float32(float v) { return ev("s" + f(v)); }
    bool visit_float64(double v) { return ev("d" + f(v)); }
    bool visit_str(const char* v, uint32_t n) { return ev("str:" + std::string(v, n)); }
    bool visit_bin(const char* v, uint32_t n) { return ev("bin:" + std::string(v, n)); }
    bool visit_ext(const char* v, uint32_t n) { return ev("ext:" + std::string(v, n)); }
    bool start_array(uint32_t n) { return ev(strf("[%u", n)); }
    bool start_array_item() { return ev("("); }
    bool end_array_item() { return ev(")"); }
    bool end_array() { return ev("]"); }
    bool start_map(uint32_t n) { return ev(strf("{%u", n)); }
    bool start_map_key() { return ev("k"); }
    bool end_map_key() { return ev("K"); }
    bool start_map_value() { return ev("v"); }
    bool end_map_value() { return ev("V"); }
    bool end_map() { return ev("}"); }
    void init() {}
    void parse_error(size_t, size_t) { bad = true; }
    void insufficient_bytes(size_t, size_t) { shortData = true; }
    bool referenced() const { return false; }
    void set_referenced(bool) {}
};
static void eventsOf(const Node& n, std::vector<std::string>& o) {
    switch (n.t) {
        case Node::NIL: o.push_back("nil"); break;
        case Node::BOOL: o.push_back(n.u ? "true" : "false"); break;
        case Node::UINT: o.push_back(strf("%llu", (unsigned long long)n.u)); break;
        case Node::NEG: o.push_back(strf("%lld", (long long)n.u)); break;
        case Node::F32: o.push_back("s" + Events::f(n.f())); break;
        case Node::F64: o.push_back("d" + Events::f(n.f())); break;
        case Node::STR: o.push_back("str:" + n.s); break;
        case Node::BIN: o.push_back("bin:" + n.s); break;
        case Node::EXT: o.push_back("ext:" + std::string(1, (char)n.ext) + n.s); break;
        case Node::ARR:
            o.push_back(strf("[%zu", n.c.size()));
            for (auto& x : n.c) { o.push_back("("); eventsOf(x, o); o.push_back(")"); }
            o.push_back("]");
            break;
        case Node::MAP:
            o.push_back(strf("{%zu", n.c.size() / 2));
            for (size_t i = 0; i < n.c.size(); i++) { o.push_back(i % 2 ? "v" : "k"); eventsOf(n.c[i], o); o.push_back(i % 2 ? "V" : "K"); }
            o.push_back("}");
            break;
    }
}
struct NoHook { void operator()(char*) {} };
struct EventParser : mp::parser<EventParser, NoHook> {
    explicit EventParser(size_t init) : mp::parser<EventParser, NoHook>(hook_, init) {}
    Events& visitor() { return e; }
    bool referenced() const { return false; }
    void set_referenced(bool) {}
    Events e;
    NoHook hook_;
};
static void events(Rng& r) {
    Node n = mref::random(r, 4, 0);
    Rng w(r.next());
    const std::string d = mref::encode(n, r.chance(1, 2) ? &w : nullptr), lead = r.bytes((size_t)r.below(5), 0), tail = r.bytes((size_t)r.below(5), 0), all = lead + d + tail;
    std::vector<std::string> want;
    eventsOf(n, want);
    auto compare = [&](const std::vector<std::string>& got, size_t k, const char* what) {
        for (size_t i = 0; i < k; i++)
            if (i >= got.size() || got[i] != want[i]) fail(strf("%s of %s: event %zu is '%s' instead of '%s'", what, mref::show(n).c_str(), i, i < got.size() ? hex(got[i], 20).c_str() : "missing", hex(want[i], 20).c_str()));
        if (got.size() > k) fail(strf("%s of %s: %zu events instead of %zu", what, mref::show(n).c_str(), got.size(), k));
    };
    phase("events of " + mref::show(n));
    char* p = (char*)malloc(all.size());
    memcpy(p, all.data(), all.size());
    std::unique_ptr<char, void (*)(void*)> hold(p, free);
    {
        Events v;
        size_t off = lead.size();
        bool ok = mp::parse(p, all.size(), off, v);
        compare(v.seen, want.size(), "parsing");
        if (!ok || v.bad || v.shortData || off != lead.size() + d.size()) fail("parsing " + mref::show(n) + strf(" ended %s at %zu instead of %zu", ok ? "well" : "badly", off, lead.size() + d.size()));
    }
    {  // a visitor that stops
        Events v;
        v.stopAt = (size_t)r.below((int64_t)want.size());
        size_t off = lead.size();
        bool ok = mp::parse(p, all.size(), off, v);
        if (ok) fail("parsing " + mref::show(n) + strf(" succeeded though the visitor stopped at event %zu", v.stopAt));
        if (v.after) fail("parsing " + mref::show(n) + strf(" went on after the visitor stopped at event %zu", v.stopAt));
        if (v.bad || v.shortData) fail("parsing " + mref::show(n) + strf(": the visitor stopped at event %zu and was told about an error", v.stopAt));
        if (off > all.size()) fail("parsing " + mref::show(n) + ": the offset is outside of the data");
        compare(v.seen, v.stopAt + 1, "stopped parsing");
    }
    {  // a part of it
        Events v;
        size_t off = 0, part = (size_t)r.below((int64_t)d.size());
        std::unique_ptr<char, void (*)(void*)> q((char*)malloc(part + 1), free);
        memcpy(q.get(), d.data(), part);
        bool ok = mp::parse(q.get(), part, off, v);
        if (ok || !v.shortData || v.bad) fail("parsing " + std::to_string(part) + " bytes of " + mref::show(n) + " did not report that bytes are missing");
        if (v.seen.size() > want.size()) fail("parsing a part of " + mref::show(n) + ": too many events");
        compare(v.seen, v.seen.size(), "parsing a part");
    }
    {  // in pieces
        EventParser u((size_t)r.range(1, 60));
        const int reps = (int)r.range(1, 3);
        size_t at = 0;
        for (int k = 0; k < reps; k++) {
            size_t pos = 0;
            u.e.seen.clear();
            bool done = false;
            while (pos < d.size() || !done) {
                if (done) fail("a streaming parser ended before the end of " + mref::show(n));
                if (pos == d.size()) fail("a streaming parser did not end at the end of " + mref::show(n));
                size_t m = std::min(d.size() - pos, (size_t)r.range(1, r.chance(1, 3) ? 400 : 9));
                u.reserve_buffer(m);
                memcpy(u.buffer(), d.data() + pos, m);
                u.buffer_consumed(m);
                pos += m;
                done = u.next();
            }
            compare(u.e.seen, want.size(), "parsing in pieces");
            at += d.size();
            u.reset();
        }
    }
}
// The order of the types that hold bytes is an order and agrees with their equality.
template <typename T> static void ordered(const std::vector<T>& v, const std::vector<std::string>& text, const char* what) {
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) {
            const bool eq = text[i] == text[j];
            if ((v[i] == v[j]) != eq || (v[i] != v[j]) == eq) fail(strf("two %s: equality of %s and %s is wrong", what, hex(text[i], 20).c_str(), hex(text[j], 20).c_str()));
            if ((int)(v[i] < v[j]) + (int)(v[i] > v[j]) != (eq ? 0 : 1) || (v[i] < v[j]) != (v[j] > v[i])) fail(strf("two %s: %s and %s are not in one order", what, hex(text[i], 20).c_str(), hex(text[j], 20).c_str()));
            for (size_t k = 0; k < v.size(); k++) if (v[i] < v[j] && v[j] < v[k] && !(v[i] < v[k])) fail(strf("the order of %s is none", what));
        }
}
template <typename F, typename T> static void fixInt(Rng& r, unsigned char head, const char* what) {
    const T v = c02::Gen<T>::make(r, 0);
    mp::sbuffer b;
    mp::pack(b, F(v));
    mref::Enc e;
    e.put(head);
    e.be((uint64_t)(typename std::make_unsigned<T>::type)v, sizeof(T));
    if (std::string(b.data(), b.size()) != e.out) fail(strf("packing a %s of %lld gave ", what, (long long)v) + hex(std::string(b.data(), b.size()), 20));
    mp::object_handle oh = mp::unpack(b.data(), b.size());
    if (oh->as<F>().get() != v || oh->as<T>() != v) fail(strf("a %s of %lld came back different", what, (long long)v));
    mp::zone z;
    Node n = v < 0 ? Node::integer((int64_t)v) : Node::uinteger((uint64_t)v);
    expectObj(mp::object(F(v)), n, std::string("an object made of a ") + what);
    expectObj(mp::object(F(v), z), n, std::string("an object made of a ") + what);
    // any integer converts if it is in range
    const int64_t any = c02::Gen<int64_t>::make(r, 0);
    const bool fits = any < 0 ? std::is_signed<T>::value && any >= (int64_t)std::numeric_limits<T>::min() : (uint64_t)any <= (uint64_t)std::numeric_limits<T>::max();
    bool ok = false;
    F got;
    try { mp::object(any).convert(got); ok = true; } catch (mp::type_error&) {}
    if (ok != fits || (ok && (int64_t)got.get() != any)) fail(strf("converting %lld to a %s %s", (long long)any, what, ok ? "succeeded" : "was refused"));
}
static void smallTypes(Rng& r) {
    phase("orders");
    std::vector<std::string> t;
    for (int64_t n = r.range(2, 6); n > 0; n--) {
        std::string s = t.empty() || r.chance(1, 2) ? r.bytes((size_t)r.range(1, 12), 0) : r.pick(t);
        if (r.chance(1, 2)) s[(size_t)r.below((int64_t)s.size())] = (char)r.next();
        t.push_back(s);
    }
    std::vector<mp::type::raw_ref> a;
    std::vector<mp::type::v4raw_ref> b;
    std::vector<mp::type::ext> x;
    std::vector<mp::type::ext_ref> xr;
    for (auto& s : t) {
        a.emplace_back(s.data(), (uint32_t)s.size());
        b.emplace_back(s.data(), (uint32_t)s.size());
        x.emplace_back((int8_t)s[0], s.data() + 1, (uint32_t)s.size() - 1);
    }
    for (size_t i = 0; i < t.size(); i++) {
        if (r.chance(1, 2)) { xr.emplace_back(t[i].data(), (uint32_t)t[i].size()); }
        else xr.emplace_back(x[i]);
        if (xr[i].str() != t[i].substr(1) || xr[i].type() != (int8_t)t[i][0] || a[i].str() != t[i] || b[i].str() != t[i]) fail("a reference to bytes holds others");
        mp::type::ext y((int8_t)t[i][0], (uint32_t)t[i].size() - 1);
        memcpy(y.data(), t[i].data() + 1, t[i].size() - 1);
        if (!(y == x[i])) fail("an ext that was filled later differs");
    }
    ordered(a, t, "raw_ref");
    ordered(b, t, "v4raw_ref");
    ordered(x, t, "ext");
    ordered(xr, t, "ext_ref");
    phase("fixed-width integers");
    fixInt<mp::type::fix_int8, int8_t>(r, 0xd0, "fix_int8");
    fixInt<mp::type::fix_int16, int16_t>(r, 0xd1, "fix_int16");
    fixInt<mp::type::fix_int32, int32_t>(r, 0xd2, "fix_int32");
    fixInt<mp::type::fix_int64, int64_t>(r, 0xd3, "fix_int64");
    fixInt<mp::type::fix_uint8, uint8_t>(r, 0xcc, "fix_uint8");
    fixInt<mp::type::fix_uint16, uint16_t>(r, 0xcd, "fix_uint16");
    fixInt<mp::type::fix_uint32, uint32_t>(r, 0xce, "fix_uint32");
    fixInt<mp::type::fix_uint64, uint64_t>(r, 0xcf, "fix_uint64");
}
void opApi(Rng& r) {
    switch (r.weighted({4, 2, 2, 4, 5, 3, 3, 4, 3})) {
        case 0: vref(r); break;
        case 1: sbuf(r); break;
        case 2: filebuf(r); break;
        case 3: zones(r); break;
        case 4: unpackerApi(r); break;
        case 5: refs(r); break;
        case 7: events(r); break;
        case 8: smallTypes(r); break;
        default: objects(r); break;
    }
}
}  // namespace c12
