// C02: the second half of the types.
#include "c02_values.h"
using namespace c02;
namespace c02u {
enum class Colour { Red = 0, Green = 5, Blue = 300, Neg = -7 };
struct Flat {
    int32_t a = 0; std::string b; double c = 0; bool d = false;
    bool operator==(const Flat& o) const { return a == o.a && b == o.b && Eq<double>::eq(c, o.c) && d == o.d; }
    MSGPACK_DEFINE(a, b, c, d);
};
struct Mapped {
    uint64_t id = 0; std::vector<Flat> items; std::map<std::string, int64_t> idx;
    bool operator==(const Mapped& o) const { return id == o.id && items == o.items && idx == o.idx; }
    MSGPACK_DEFINE_MAP(id, items, idx);
};
struct Derived : Flat {
    std::optional<int> extra; Colour col = Colour::Red; std::vector<Mapped> deep;
    bool operator==(const Derived& o) const { return Flat::operator==(o) && extra == o.extra && col == o.col && deep == o.deep; }
    MSGPACK_DEFINE(MSGPACK_BASE(Flat), extra, col, deep);
};
}  // namespace c02u
MSGPACK_ADD_ENUM(c02u::Colour);
namespace c02 {
using namespace c02u;
template <> struct Gen<Colour> { static Colour make(Rng& r, int) { return r.pick(std::vector<Colour>{Colour::Red, Colour::Green, Colour::Blue, Colour::Neg}); } };
template <> struct Gen<Flat> { static Flat make(Rng& r, int sc) { Flat f; f.a = Gen<int32_t>::make(r, 0); f.b = Gen<std::string>::make(r, sc); f.c = Gen<double>::make(r, 0); f.d = r.chance(1, 2); return f; } };
template <> struct Gen<Mapped> {
    static Mapped make(Rng& r, int sc) {
        Mapped m; m.id = r.next();
        for (int64_t n = r.below(20); n > 0; n--) m.items.push_back(Gen<Flat>::make(r, sc - 2));
        m.idx = Gen<std::map<std::string, int64_t>>::make(r, sc - 1);
        return m;
    }
};
template <> struct Gen<Derived> {
    static Derived make(Rng& r, int sc) {
        Derived d; (Flat&)d = Gen<Flat>::make(r, sc); if (r.chance(1, 2)) d.extra = (int)r.next(); d.col = Gen<Colour>::make(r, 0);
        for (int64_t n = r.below(3); n > 0; n--) d.deep.push_back(Gen<Mapped>::make(r, sc - 1));
        return d;
    }
};
typedef std::variant<bool, int64_t, double, std::string, std::vector<uint8_t>> Var;
template <> struct Gen<Var> {
    static Var make(Rng& r, int sc) {
        switch (r.below(4)) { case 0: return r.chance(1, 2); case 1: return (int64_t)r.next(); case 2: return Gen<std::string>::make(r, sc); default: { std::string s = Gen<std::string>::make(r, sc); return std::vector<uint8_t>(s.begin(), s.end()); } }
    }
};
template <> struct Gen<veigar_msgpack::type::ext> {
    static veigar_msgpack::type::ext make(Rng& r, int sc) {
        int64_t n = r.chance(1, 2) ? r.pick(std::vector<int64_t>{0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 255, 256}) : lenOf(r, sc);
        std::string s = r.bytes((size_t)n, 0);
        return veigar_msgpack::type::ext((int8_t)r.next(), s.data(), (uint32_t)s.size());
    }
};
void addTypes2() {
    addType<Colour>("enum");
    addType<Flat>("struct");
    addType<Mapped>("struct-map");
    addType<Derived>("struct-derived");
    addType<std::vector<Derived>>("vector<struct-derived>");
    addType<veigar_msgpack::type::ext>("ext");
}
}  // namespace c02
