// C12: what is checked for every C++ type the codec supports.
#pragma once
#include "msgref.h"
#include "c12_obj.h"
namespace c02 {
template <typename T> void addType(const std::string& name) {
    TypeEntry e;
    e.name = name;
    e.run = [name](Ctx&, Rng& r, int sc, int) {
        T val = Gen<T>::make(r, sc);
        veigar_msgpack::sbuffer b;
        veigar_msgpack::pack(b, val);
        const std::string bytes(b.data(), b.size());
        phase("type " + name);
        // what was packed is one value of the format, in its shortest form
        mref::Node n;
        size_t off = 0;
        mref::Status st = mref::decode(bytes, off, n);
        if (st != mref::OK || off != bytes.size()) fail("type " + name + ": packed into bytes that are not one MessagePack value: " + hex(bytes, 60));
        std::string again = mref::encode(n);
        if (again != bytes && !c12::hasF32Nan(n)) fail("type " + name + ": not packed in the shortest form: " + hex(bytes, 60) + " instead of " + hex(again, 60));
        // and unpacks to the value
        char* copy = (char*)malloc(bytes.size() ? bytes.size() : 1);
        memcpy(copy, bytes.data(), bytes.size());
        veigar_msgpack::object_handle cl;
        {
            veigar_msgpack::object_handle oh = veigar_msgpack::unpack(copy, bytes.size());
            T back{};
            try {
                back = oh.get().as<T>();
            } catch (std::exception& ex) {
                fail("type " + name + ": " + mref::show(n) + " does not convert back: " + ex.what());
            }
            if (!Eq<T>::eq(back, val)) fail("type " + name + ": packed " + mref::show(n) + ", unpacked " + show(back));
            cl = veigar_msgpack::clone(oh.get());
        }
        // the clone does not depend on the buffer
        memset(copy, 0x5a, bytes.size());
        free(copy);
        c12::expectObj(cl.get(), n, "type " + name + ": clone");
        T back2{};
        cl.get().convert(back2);
        if (!Eq<T>::eq(back2, val)) fail("type " + name + ": packed " + mref::show(n) + ", the clone unpacked to " + show(back2));
        // whatever the target held before
        {
            T back5 = Gen<T>::make(r, r.chance(1, 2) ? 1 : 0);
            std::string before = show(back5);
            cl.get().convert(back5);
            veigar_msgpack::sbuffer b5;  // what follows the terminator of a character array is no part of its value
            veigar_msgpack::pack(b5, back5);
            if (std::string(b5.data(), b5.size()) != bytes && !Eq<T>::eq(back5, val)) fail("type " + name + ": packed " + mref::show(n) + ", converted into a variable that held " + before + " it became " + show(back5));
        }
        // an object made from the value is the same value
        {
            std::unique_ptr<T> src(new T(val));
            veigar_msgpack::zone z;
            veigar_msgpack::object o(*src, z);
            src.reset();
            mref::Node on = c12::toNode(o);
            if (!c12::sameValue(on, n)) fail("type " + name + ": object(value, zone) is " + mref::show(on) + " instead of " + mref::show(n));
            veigar_msgpack::sbuffer b2;
            veigar_msgpack::pack(b2, o);
            if (std::string(b2.data(), b2.size()) != bytes && !c12::hasF32Nan(n)) fail("type " + name + ": the object packs to " + hex(std::string(b2.data(), b2.size()), 60) + " instead of " + hex(bytes, 60));
            T back3{};
            o.convert(back3);
            if (!Eq<T>::eq(back3, val)) fail("type " + name + ": an object made from the value converts to " + show(back3));
        }
        // wider encodings of the same value convert to the same value
        {
            Rng w(r.next());
            std::string wide = mref::encode(n, &w);
            veigar_msgpack::object_handle oh = veigar_msgpack::unpack(wide.data(), wide.size());
            T back4{};
            try {
                back4 = oh.get().as<T>();
            } catch (std::exception& ex) {
                fail("type " + name + ": wide form " + hex(wide, 60) + " does not convert: " + ex.what());
            }
            if (!Eq<T>::eq(back4, val)) fail("type " + name + ": wide form " + hex(wide, 60) + " converts to " + show(back4));
        }
        metric("typed_values");
        label("type " + name);
    };
    types().push_back(e);
}
}  // namespace c02
