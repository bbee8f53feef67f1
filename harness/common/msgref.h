// Independent reference implementation of the MessagePack format (https://github.com/msgpack/msgpack/blob/master/spec.md).
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include "vp.h"

namespace mref {
struct Node {
    enum T { NIL, BOOL, UINT, NEG, F32, F64, STR, BIN, ARR, MAP, EXT } t = NIL;
    uint64_t u = 0;   // BOOL, UINT, NEG (two's complement), F32 and F64 (bits of the double)
    std::string s;    // STR, BIN, EXT payload
    int8_t ext = 0;
    std::vector<Node> c;  // ARR elements, MAP key,value,...
    double f() const { double d; memcpy(&d, &u, 8); return d; }
    static Node nil() { return Node(); }
    static Node boolean(bool b) { Node n; n.t = BOOL; n.u = b; return n; }
    static Node integer(int64_t v) { Node n; n.t = v < 0 ? NEG : UINT; n.u = (uint64_t)v; return n; }
    static Node uinteger(uint64_t v) { Node n; n.t = UINT; n.u = v; return n; }
    static Node f64(double d) { Node n; n.t = F64; memcpy(&n.u, &d, 8); return n; }
    static Node f32(float f) { Node n; n.t = F32; double d = f; memcpy(&n.u, &d, 8); return n; }
    static Node str(const std::string& v) { Node n; n.t = STR; n.s = v; return n; }
    static Node bin(const std::string& v) { Node n; n.t = BIN; n.s = v; return n; }
    static Node arr(std::vector<Node> v) { Node n; n.t = ARR; n.c = std::move(v); return n; }
    static Node map(std::vector<Node> v) { Node n; n.t = MAP; n.c = std::move(v); return n; }
};
inline bool isnanBits(uint64_t u) { return (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull); }
inline bool eq(const Node& a, const Node& b) {
    if (a.t != b.t || a.s != b.s || a.c.size() != b.c.size()) return false;
    if ((a.t == Node::F32 || a.t == Node::F64) && isnanBits(a.u) && isnanBits(b.u)) return true;
    if (a.u != b.u || (a.t == Node::EXT && a.ext != b.ext)) return false;
    for (size_t i = 0; i < a.c.size(); i++) if (!eq(a.c[i], b.c[i])) return false;
    return true;
}
inline std::string show(const Node& n, int depth = 0) {
    switch (n.t) {
        case Node::NIL: return "nil";
        case Node::BOOL: return n.u ? "true" : "false";
        case Node::UINT: return vp::strf("%llu", (unsigned long long)n.u);
        case Node::NEG: return vp::strf("%lld", (long long)n.u);
        case Node::F32: return vp::strf("f32:%.9g", n.f());
        case Node::F64: return vp::strf("f64:%.17g", n.f());
        case Node::STR: return "str" + std::to_string(n.s.size()) + ":" + vp::hex(n.s, 12);
        case Node::BIN: return "bin" + std::to_string(n.s.size()) + ":" + vp::hex(n.s, 12);
        case Node::EXT: return vp::strf("ext%d/", (int)n.ext) + std::to_string(n.s.size()) + ":" + vp::hex(n.s, 12);
        default: break;
    }
    std::string r = n.t == Node::ARR ? "[" : "{";
    for (size_t i = 0; i < n.c.size(); i++) {
        if (i >= 8 || depth > 4) { r += "..(" + std::to_string(n.c.size()) + ")"; break; }
        r += show(n.c[i], depth + 1) + ",";
    }
    return r + (n.t == Node::ARR ? "]" : "}");
}

enum Status { OK, SHORT, BAD, LIMIT, DEEP };
struct Limits { uint64_t arr = ~0ull, map = ~0ull, str = ~0ull, bin = ~0ull, ext = ~0ull, depth = ~0ull; };
struct Dec {
    const unsigned char* p;
    size_t n, off;
    Limits lim;
    size_t maxDepth = 3000;   // of this decoder
    bool nonMinimal = false;
    bool be(int k, uint64_t& v) {
        if (n - off < (size_t)k) return false;
        v = 0;
        for (int i = 0; i < k; i++) v = v << 8 | p[off++];
        return true;
    }
    Status bytes(uint64_t len, std::string& s) {
        if (n - off < len) return SHORT;
        s.assign((const char*)p + off, (size_t)len);
        off += (size_t)len;
        return OK;
    }
    Status seq(Node& o, uint64_t cnt, bool map, size_t depth) {
        o.t = map ? Node::MAP : Node::ARR;
        if (cnt > (map ? lim.map : lim.arr) || depth > lim.depth) return LIMIT;
        if (depth > maxDepth) return DEEP;
        if (map) cnt *= 2;
        for (uint64_t i = 0; i < cnt; i++) {
            if (off >= n) return SHORT;
            o.c.emplace_back();
            Status s = one(o.c.back(), depth + 1);
            if (s != OK) return s;
        }
        return OK;
    }
    Status one(Node& o, size_t depth = 1) {
        if (off >= n) return SHORT;
        unsigned b = p[off++];
        uint64_t v = 0;
        if (b <= 0x7f) { o.t = Node::UINT; o.u = b; return OK; }
        if (b >= 0xe0) { o.t = Node::NEG; o.u = (uint64_t)(int64_t)(int8_t)b; return OK; }
        if (b <= 0x8f) return seq(o, b & 15, true, depth);
        if (b <= 0x9f) return seq(o, b & 15, false, depth);
        auto str = [&](uint64_t len, Node::T t) {
            o.t = t;
            Status s = bytes(len, o.s);
            if (s != OK) return s;
            return len > (t == Node::STR ? lim.str : lim.bin) ? LIMIT : OK;
        };
        auto ext = [&](uint64_t len) {
            o.t = Node::EXT;
            if (off >= n) return SHORT;
            o.ext = (int8_t)p[off++];
            Status s = bytes(len, o.s);
            if (s != OK) return s;
            return len + 1 > lim.ext ? LIMIT : OK;   // the limit of this codec counts the type byte
        };
        if (b <= 0xbf) return str(b & 31, Node::STR);
        auto sint = [&](int k) {
            if (!be(k, v)) return SHORT;
            int64_t x = k == 1 ? (int8_t)v : k == 2 ? (int16_t)v : k == 4 ? (int32_t)v : (int64_t)v;
            o.t = x < 0 ? Node::NEG : Node::UINT;
            o.u = (uint64_t)x;
            return OK;
        };
        auto uint = [&](int k) {
            if (!be(k, v)) return SHORT;
            o.t = Node::UINT;
            o.u = v;
            return OK;
        };
        switch (b) {
            case 0xc0: o.t = Node::NIL; return OK;
            case 0xc1: return BAD;
            case 0xc2: case 0xc3: o.t = Node::BOOL; o.u = b & 1; return OK;
            case 0xc4: return be(1, v) ? str(v, Node::BIN) : SHORT;
            case 0xc5: return be(2, v) ? str(v, Node::BIN) : SHORT;
            case 0xc6: return be(4, v) ? str(v, Node::BIN) : SHORT;
            case 0xc7: return be(1, v) ? ext(v) : SHORT;
            case 0xc8: return be(2, v) ? ext(v) : SHORT;
            case 0xc9: return be(4, v) ? ext(v) : SHORT;
            case 0xca: {
                if (!be(4, v)) return SHORT;
                uint32_t i = (uint32_t)v;
                float f;
                memcpy(&f, &i, 4);
                double d = f;
                o.t = Node::F32;
                memcpy(&o.u, &d, 8);
                return OK;
            }
            case 0xcb: if (!be(8, v)) return SHORT; o.t = Node::F64; o.u = v; return OK;
            case 0xcc: return uint(1);
            case 0xcd: return uint(2);
            case 0xce: return uint(4);
            case 0xcf: return uint(8);
            case 0xd0: return sint(1);
            case 0xd1: return sint(2);
            case 0xd2: return sint(4);
            case 0xd3: return sint(8);
            case 0xd4: return ext(1);
            case 0xd5: return ext(2);
            case 0xd6: return ext(4);
            case 0xd7: return ext(8);
            case 0xd8: return ext(16);
            case 0xd9: return be(1, v) ? str(v, Node::STR) : SHORT;
            case 0xda: return be(2, v) ? str(v, Node::STR) : SHORT;
            case 0xdb: return be(4, v) ? str(v, Node::STR) : SHORT;
            case 0xdc: return be(2, v) ? seq(o, v, false, depth) : SHORT;
            case 0xdd: return be(4, v) ? seq(o, v, false, depth) : SHORT;
            case 0xde: return be(2, v) ? seq(o, v, true, depth) : SHORT;
            default: return be(4, v) ? seq(o, v, true, depth) : SHORT;
        }
    }
};
inline Status decode(const std::string& d, size_t& off, Node& o, const Limits& lim = Limits()) {
    Dec x{(const unsigned char*)d.data(), d.size(), off, lim};
    o = Node();
    Status s = x.one(o);
    off = x.off;
    return s;
}

// Encoder. widen: chooses a wider form than necessary with the given generator (nullptr: minimal).
struct Enc {
    std::string out;
    vp::Rng* r = nullptr;
    void put(unsigned b) { out.push_back((char)b); }
    void be(uint64_t v, int k) { for (int i = k - 1; i >= 0; i--) put((unsigned)(v >> (8 * i)) & 255); }
    // picks a width class >= lo among lo..hi
    int width(int lo, int hi) { return r ? (int)r->range(lo, hi) : lo; }
    void one(const Node& n) {
        switch (n.t) {
            case Node::NIL: put(0xc0); break;
            case Node::BOOL: put(n.u ? 0xc3 : 0xc2); break;
            case Node::UINT: {
                int lo = n.u < 128 ? 0 : n.u < 256 ? 1 : n.u < 65536 ? 2 : n.u < 4294967296ull ? 3 : 4;
                int w = width(lo, 4);
                if (w == 0) put((unsigned)n.u);
                else if (r && r->chance(1, 3) && (w > lo || (lo == 0)) && n.u < (1ull << (8 * (1 << (w - 1)) - 1))) { put(0xd0 + w - 1); be(n.u, 1 << (w - 1)); }  // a signed form
                else { put(0xcc + w - 1); be(n.u, 1 << (w - 1)); }
                break;
            }
            case Node::NEG: {
                int64_t v = (int64_t)n.u;
                int lo = v >= -32 ? 0 : v >= -128 ? 1 : v >= -32768 ? 2 : v >= -2147483648LL ? 3 : 4;
                int w = width(lo, 4);
                if (w == 0) put((unsigned)(v & 255));
                else { put(0xd0 + w - 1); be(n.u, 1 << (w - 1)); }
                break;
            }
            case Node::F32: { put(0xca); float f = (float)n.f(); uint32_t i; memcpy(&i, &f, 4); be(i, 4); break; }
            case Node::F64: put(0xcb); be(n.u, 8); break;
            case Node::STR: {
                uint64_t l = n.s.size();
                int w = width(l < 32 ? 0 : l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
                if (w == 0) put(0xa0 | (unsigned)l);
                else { put(0xd9 + w - 1); be(l, 1 << (w - 1)); }
                out += n.s;
                break;
            }
            case Node::BIN: {
                uint64_t l = n.s.size();
                int w = width(l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
                put(0xc4 + w - 1);
                be(l, 1 << (w - 1));
                out += n.s;
                break;
            }
            case Node::EXT: {
                uint64_t l = n.s.size();
                int fix = l == 1 ? 0xd4 : l == 2 ? 0xd5 : l == 4 ? 0xd6 : l == 8 ? 0xd7 : l == 16 ? 0xd8 : 0;
                int w = width(fix ? 0 : l < 256 ? 1 : l < 65536 ? 2 : 3, 3);
                if (w == 0) put((unsigned)fix);
                else { if (l >= 256 && w < 2) w = 2; put(0xc7 + w - 1); be(l, 1 << (w - 1)); }
                put((unsigned char)n.ext);
                out += n.s;
                break;
            }
            case Node::ARR: case Node::MAP: {
                uint64_t l = n.t == Node::ARR ? n.c.size() : n.c.size() / 2;
                int w = width(l < 16 ? 0 : l < 65536 ? 1 : 2, 2);
                if (w == 0) put((n.t == Node::ARR ? 0x90 : 0x80) | (unsigned)l);
                else { put((n.t == Node::ARR ? 0xdc : 0xde) + w - 1); be(l, 1 << w); }
                for (auto& x : n.c) one(x);
                break;
            }
        }
    }
};
inline std::string encode(const Node& n, vp::Rng* widen = nullptr) {
    Enc e;
    e.r = widen;
    e.one(n);
    return e.out;
}

// Random values.
inline Node random(vp::Rng& r, int depth, int big = 0) {
    static const std::vector<uint64_t> edges = {0, 1, 31, 32, 33, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull,
                                                9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
    auto len = [&]() -> size_t {
        static const std::vector<int64_t> e = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257};
        static const std::vector<int64_t> e2 = {65534, 65535, 65536, 65537, 70000};
        if (big > 0 && r.chance(1, 3)) return (size_t)r.pick(e2);
        return (size_t)(r.chance(1, 2) ? r.pick(e) : r.small(40));
    };
    switch (r.weighted({1, 1, 4, 3, 1, 2, 3, 2, depth > 0 ? 4 : 0, depth > 0 ? 3 : 0, 2})) {
        case 0: return Node::nil();
        case 1: return Node::boolean(r.chance(1, 2));
        case 2: return Node::uinteger(r.chance(2, 3) ? r.pick(edges) : r.next() >> r.below(64));
        case 3: {
            uint64_t v = r.chance(2, 3) ? r.pick(edges) : r.next() >> r.below(64);
            if (v == 0) v = 1;
            if (v > 9223372036854775808ull) v = 9223372036854775808ull;
            return Node::integer((int64_t)(0 - v));
        }
        case 4: { uint32_t i = (uint32_t)r.next(); float f; memcpy(&f, &i, 4); if (r.chance(1, 3)) f = (float)r.range(-1000, 1000) / 2; return Node::f32(f); }
        case 5: { Node n; n.t = Node::F64; n.u = r.next(); if (r.chance(1, 3)) return Node::f64((double)r.range(-100000, 100000) / 4); return n; }
        case 6: return Node::str(r.bytes(len(), (int)r.below(3)));
        case 7: return Node::bin(r.bytes(len(), 0));
        case 10: {
            Node n;
            n.t = Node::EXT;
            n.ext = (int8_t)r.next();
            n.s = r.bytes(len(), 0);
            return n;
        }
        default: {
            bool map = r.chance(1, 2);
            size_t l = r.chance(1, 2) ? (size_t)r.below(5) : len();
            if (l > 300) { l = depth > 1 ? l % 300 : l; }
            std::vector<Node> c;
            bool flat = l > 20;
            for (size_t i = 0; i < (map ? 2 * l : l); i++) c.push_back(flat ? (l > 300 ? Node::integer(r.range(-40, 300)) : random(r, 0, 0)) : random(r, depth - 1, 0));
            return map ? Node::map(std::move(c)) : Node::arr(std::move(c));
        }
    }
}
}  // namespace mref
