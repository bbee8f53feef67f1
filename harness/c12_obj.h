// Objects of the codec as values of the reference.
#pragma once
#include "msgref.h"
#include "veigar/msgpack.hpp"
namespace c12 {
inline mref::Node toNode(const veigar_msgpack::object& o) {
    using namespace veigar_msgpack;
    mref::Node n;
    switch (o.type) {
        case type::NIL: break;
        case type::BOOLEAN: n = mref::Node::boolean(o.via.boolean); break;
        case type::POSITIVE_INTEGER: n = mref::Node::uinteger(o.via.u64); break;
        case type::NEGATIVE_INTEGER: n.t = mref::Node::NEG; n.u = (uint64_t)o.via.i64; break;
        case type::FLOAT32: n = mref::Node::f64(o.via.f64); n.t = mref::Node::F32; break;
        case type::FLOAT64: n = mref::Node::f64(o.via.f64); break;
        case type::STR: n.t = mref::Node::STR; if (o.via.str.size) n.s.assign(o.via.str.ptr, o.via.str.size); break;
        case type::BIN: n.t = mref::Node::BIN; if (o.via.bin.size) n.s.assign(o.via.bin.ptr, o.via.bin.size); break;
        case type::EXT: n.t = mref::Node::EXT; n.ext = o.via.ext.type(); if (o.via.ext.size) n.s.assign(o.via.ext.data(), o.via.ext.size); break;
        case type::ARRAY:
            n.t = mref::Node::ARR;
            for (uint32_t i = 0; i < o.via.array.size; i++) n.c.push_back(toNode(o.via.array.ptr[i]));
            break;
        case type::MAP:
            n.t = mref::Node::MAP;
            for (uint32_t i = 0; i < o.via.map.size; i++) { n.c.push_back(toNode(o.via.map.ptr[i].key)); n.c.push_back(toNode(o.via.map.ptr[i].val)); }
            break;
        default: vp::fail(vp::strf("an object has the unknown type %d", (int)o.type));
    }
    return n;
}
inline void expectObj(const veigar_msgpack::object& o, const mref::Node& n, const std::string& what) {
    mref::Node got = toNode(o);
    if (!mref::eq(got, n)) vp::fail(what + ": expected " + mref::show(n) + ", got " + mref::show(got));
}
// NaNs stay NaNs, but not bit by bit, when a float is widened.
inline bool hasF32Nan(const mref::Node& n) {
    if (n.t == mref::Node::F32 && mref::isnanBits(n.u)) return true;
    for (auto& x : n.c) if (hasF32Nan(x)) return true;
    return false;
}
// Equal up to the representation the packer chooses: integral floats are packed as integers.
inline bool sameValue(const mref::Node& a, const mref::Node& b) {
    using mref::Node;
    auto num = [](const Node& n) { return n.t == Node::F32 || n.t == Node::F64; };
    if (num(a) != num(b) && (a.t == Node::UINT || a.t == Node::NEG || num(a)) && (b.t == Node::UINT || b.t == Node::NEG || num(b))) {
        const Node& f = num(a) ? a : b;
        const Node& i = num(a) ? b : a;
        return i.t == Node::UINT ? f.f() >= 0 && f.f() == (double)i.u && f.f() < 18446744073709551616.0 && (uint64_t)f.f() == i.u : f.f() < 0 && f.f() >= -9223372036854775808.0 && (int64_t)f.f() == (int64_t)i.u;
    }
    if (a.t != b.t || a.c.size() != b.c.size()) return false;
    if (a.c.empty()) return mref::eq(a, b);
    for (size_t i = 0; i < a.c.size(); i++) if (!sameValue(a.c[i], b.c[i])) return false;
    return true;
}
}  // namespace c12
