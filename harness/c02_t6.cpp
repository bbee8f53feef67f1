// C02: further types: everything else the codec has adaptors for.
#include "c02_values.h"
#include <complex>
#include <cstddef>
using namespace c02;
namespace c02v {
struct Arrays {
    int32_t a[5] = {}; char b[8] = {}; unsigned char c[6] = {}; int8_t d[2][3] = {}; std::string e[2]; std::byte f[4] = {};
    bool operator==(const Arrays& o) const {
        return !memcmp(a, o.a, sizeof a) && !memcmp(b, o.b, sizeof b) && !memcmp(c, o.c, sizeof c) && !memcmp(d, o.d, sizeof d) && e[0] == o.e[0] && e[1] == o.e[1] && !memcmp(f, o.f, sizeof f);
    }
    MSGPACK_DEFINE(a, b, c, d, e, f);
};
struct MapBase {
    std::string s; int64_t n = 0;
    bool operator==(const MapBase& o) const { return s == o.s && n == o.n; }
    MSGPACK_DEFINE_MAP(s, n);
};
struct Nvp : MapBase {
    uint8_t x = 0; std::vector<std::string> y; std::optional<MapBase> z;
    bool operator==(const Nvp& o) const { return MapBase::operator==(o) && x == o.x && y == o.y && z == o.z; }
    MSGPACK_DEFINE_MAP(MSGPACK_BASE_MAP(MapBase), MSGPACK_NVP("a key with spaces", x), MSGPACK_NVP("", y), z);
};
enum Plain { PA, PB = 70000, PC = 2147483647 };
typedef std::variant<bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<std::string>> Var;
}  // namespace c02v
MSGPACK_ADD_ENUM(c02v::Plain);
namespace c02 {
using namespace c02v;
typedef std::chrono::system_clock SC;
template <typename T> struct Eq<std::complex<T>> { static bool eq(const std::complex<T>& a, const std::complex<T>& b) { return Eq<T>::eq(a.real(), b.real()) && Eq<T>::eq(a.imag(), b.imag()); } };
template <> struct Eq<veigar_msgpack::type::nil_t> { static bool eq(const veigar_msgpack::type::nil_t&, const veigar_msgpack::type::nil_t&) { return true; } };  // its operator== compares addresses
template <> struct Eq<Var> {
    static bool eq(const Var& a, const Var& b) {
        if (a.index() != b.index()) return false;
        return a.index() == 2 ? Eq<double>::eq(std::get<2>(a), std::get<2>(b)) : a == b;
    }
};
template <> struct Gen<std::wstring> {
    static std::wstring make(Rng& r, int sc) {
        std::wstring w;
        for (int64_t n = std::min<int64_t>(lenOf(r, sc), 5000); n > 0; n--) w.push_back((wchar_t)(r.chance(1, 2) ? r.below(300) : r.chance(1, 2) ? r.below(0x110000) : (int64_t)(int32_t)r.next()));
        return w;
    }
};
template <typename T> struct Gen<std::complex<T>> { static std::complex<T> make(Rng& r, int) { T a = Gen<T>::make(r, 0); return std::complex<T>(a, Gen<T>::make(r, 0)); } };
template <> struct Gen<std::byte> { static std::byte make(Rng& r, int) { return (std::byte)r.next(); } };
template <> struct Gen<veigar_msgpack::type::nil_t> { static veigar_msgpack::type::nil_t make(Rng&, int) { return {}; } };
template <typename K, typename V> struct Gen<veigar_msgpack::type::assoc_vector<K, V>> {
    static veigar_msgpack::type::assoc_vector<K, V> make(Rng& r, int sc) {
        veigar_msgpack::type::assoc_vector<K, V> v;  // kept sorted by key, like a map
        for (auto& p : mapOf<std::map<K, V>, K, V>(r, sc)) v.push_back(p);
        return v;
    }
};
template <> struct Gen<Arrays> {
    static Arrays make(Rng& r, int sc) {
        Arrays x;
        for (auto& v : x.a) v = Gen<int32_t>::make(r, 0);
        for (auto& v : x.b) v = (char)r.next();  // a C string: what follows its end is not part of it
        for (size_t i = strnlen(x.b, sizeof x.b); i < sizeof x.b; i++) x.b[i] = 0;
        for (auto& v : x.c) v = (unsigned char)r.next();
        for (auto& p : x.d) for (auto& v : p) v = (int8_t)r.next();
        for (auto& v : x.e) v = Gen<std::string>::make(r, sc - 1);
        for (auto& v : x.f) v = (std::byte)r.next();
        return x;
    }
};
template <> struct Gen<MapBase> { static MapBase make(Rng& r, int sc) { MapBase m; m.s = Gen<std::string>::make(r, sc); m.n = Gen<int64_t>::make(r, 0); return m; } };
template <> struct Gen<Nvp> {
    static Nvp make(Rng& r, int sc) {
        Nvp m; (MapBase&)m = Gen<MapBase>::make(r, sc - 1); m.x = (uint8_t)r.next();
        for (int64_t n = r.below(6); n > 0; n--) m.y.push_back(Gen<std::string>::make(r, sc - 1));
        if (r.chance(1, 2)) m.z = Gen<MapBase>::make(r, 0);
        return m;
    }
};
template <> struct Gen<Plain> { static Plain make(Rng& r, int) { return r.pick(std::vector<Plain>{PA, PB, PC}); } };
template <> struct Gen<Var> {
    static Var make(Rng& r, int sc) {
        switch (r.below(6)) {
            case 0: return Var(r.chance(1, 2));
            case 1: return Var(Gen<int64_t>::make(r, 0));
            case 2: return Var(Gen<double>::make(r, 0));
            case 3: return Var(Gen<std::string>::make(r, sc));
            case 4: { std::string s = Gen<std::string>::make(r, sc); return Var(std::vector<uint8_t>(s.begin(), s.end())); }
            default: { std::vector<std::string> v; for (int64_t n = r.below(20); n > 0; n--) v.push_back(Gen<std::string>::make(r, 0)); return Var(v); }
        }
    }
};
template <typename D> struct Gen<std::chrono::time_point<SC, D>> {
    static std::chrono::time_point<SC, D> make(Rng& r, int) {
        int64_t s = r.chance(1, 3) ? r.pick(std::vector<int64_t>{0, 1, -1, 4294967295LL, 4294967296LL, -4294967296LL, 253402300799LL, -62135596800LL}) : r.range(-(1LL << 32), 1LL << 33);
        return std::chrono::time_point<SC, D>(std::chrono::duration_cast<D>(std::chrono::seconds(s)) + D(r.chance(1, 2) ? 0 : r.range(-999, 999)));
    }
};
void addTypes6() {
    addType<std::wstring>("wstring");
    addType<std::complex<double>>("complex<double>");
    addType<std::complex<float>>("complex<float>");
    addType<std::byte>("byte");
    addType<std::vector<std::byte>>("vector<byte>");
    addType<std::array<std::byte, 9>>("array<byte,9>");
    addType<std::array<unsigned char, 33>>("array<uint8,33>");
    addType<std::array<bool, 5>>("array<bool,5>");
    addType<std::unordered_multimap<std::string, int>>("unordered_multimap");
    addType<std::unordered_multiset<int16_t>>("unordered_multiset");
    addType<veigar_msgpack::type::assoc_vector<std::string, int64_t>>("assoc_vector");
    addType<veigar_msgpack::type::nil_t>("nil");
    addType<Arrays>("struct-arrays");
    addType<Nvp>("struct-nvp");
    addType<std::vector<Nvp>>("vector<struct-nvp>");
    addType<Plain>("plain-enum");
}
void addTypes7() {
    addType<Var>("variant");
    addType<std::vector<Var>>("vector<variant>");
    addType<std::tuple<>>("tuple<>");
    addType<std::tuple<std::string>>("tuple<string>");
    addType<std::chrono::time_point<SC, std::chrono::seconds>>("time_point<s>");
    addType<std::chrono::time_point<SC, std::chrono::milliseconds>>("time_point<ms>");
    addType<std::chrono::time_point<SC, std::chrono::microseconds>>("time_point<us>");
    addType<std::vector<std::pair<uint8_t, std::string>>>("vector<pair>");
    addType<std::vector<std::array<int16_t, 2>>>("vector<array>");
    addType<std::list<std::list<std::string>>>("list<list<string>>");
    addType<std::set<std::pair<int32_t, std::string>>>("set<pair>");
    addType<std::map<std::vector<int16_t>, bool>>("map<vector,bool>");
    addType<std::optional<std::vector<std::optional<std::string>>>>("optional<vector<optional>>");
    addType<std::shared_ptr<std::vector<std::shared_ptr<int32_t>>>>("shared_ptr<vector<shared_ptr>>");
    addType<long>("long");
    addType<unsigned long>("ulong");
    addType<signed char>("schar");
    addType<wchar_t>("wchar");
}
}  // namespace c02
