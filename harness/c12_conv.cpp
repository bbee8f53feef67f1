// C12: converting objects to C++ types. The oracle is a reference conversion written from the rules of the types: it says whether the object
// holds a value of the type, and which; the object is a packed value of the type with parts replaced, added or removed.
#include "c02_values.h"
#include "c12_obj.h"
#include <complex>
using namespace vp;
using mref::Node;
namespace mp = veigar_msgpack;
typedef std::chrono::system_clock SC;

namespace c12 {
struct Arr4 { int32_t a; std::string b; bool c; double d; MSGPACK_DEFINE(a, b, c, d); bool operator==(const Arr4& o) const { return a == o.a && b == o.b && c == o.c && c02::Eq<double>::eq(d, o.d); } };
struct Map3 { int64_t id; std::vector<std::string> items; std::optional<int> opt; MSGPACK_DEFINE_MAP(id, items, opt); bool operator==(const Map3& o) const { return id == o.id && items == o.items && opt == o.opt; } };
struct CArr { int32_t a[3]; char b[6]; unsigned char c[4]; MSGPACK_DEFINE(a, b, c); bool operator==(const CArr& o) const { return !memcmp(a, o.a, sizeof a) && !memcmp(b, o.b, sizeof b) && !memcmp(c, o.c, sizeof c); } };
struct Bits { std::vector<bool> v; std::array<char, 5> s; std::array<unsigned char, 3> u; MSGPACK_DEFINE(v, s, u); bool operator==(const Bits& o) const { return v == o.v && s == o.s && u == o.u; } };
}  // namespace c12
namespace c02 {
template <> struct Gen<c12::Arr4> { static c12::Arr4 make(Rng& r, int s) { c12::Arr4 x; x.a = Gen<int32_t>::make(r, s); x.b = Gen<std::string>::make(r, 0); x.c = r.chance(1, 2); x.d = Gen<double>::make(r, s); return x; } };
template <> struct Gen<c12::Map3> { static c12::Map3 make(Rng& r, int s) { c12::Map3 x; x.id = Gen<int64_t>::make(r, s); x.items = Gen<std::vector<std::string>>::make(r, 0); if (r.chance(1, 2)) x.opt = Gen<int>::make(r, 0); return x; } };
template <> struct Gen<c12::CArr> { static c12::CArr make(Rng& r, int s) { c12::CArr x; for (auto& v : x.a) v = Gen<int32_t>::make(r, s); for (auto& v : x.b) v = (char)r.next(); for (auto& v : x.c) v = (unsigned char)r.next(); return x; } };
template <> struct Gen<c12::Bits> { static c12::Bits make(Rng& r, int s) { c12::Bits x; x.v = Gen<std::vector<bool>>::make(r, s > 0 ? 0 : s); for (auto& v : x.s) v = (char)r.next(); for (auto& v : x.u) v = (unsigned char)r.next(); return x; } };
namespace cv {
template <typename T, typename E = void> struct G { static T make(Rng& r) { return Gen<T>::make(r, 0); } };
template <typename D> struct G<std::chrono::time_point<SC, D>> {
    static std::chrono::time_point<SC, D> make(Rng& r) { return std::chrono::time_point<SC, D>(D((typename D::rep)(r.chance(1, 3) ? Gen<int64_t>::make(r, 0) : r.range(-5000000000LL, 5000000000LL)))); }
};
template <> struct G<std::wstring> { static std::wstring make(Rng& r) { std::wstring w; for (int64_t n = r.below(4); n > 0; n--) w.push_back((wchar_t)r.range(0, 70000)); return w; } };
template <> struct G<double> { static double make(Rng& r) { double d = Gen<double>::make(r, 0); return d == d ? d : 2.5; } };
template <> struct G<std::complex<double>> { static std::complex<double> make(Rng& r) { return {(double)r.range(-9, 9), 0.5}; } };
template <typename A, typename B> struct G<std::pair<A, B>> { static std::pair<A, B> make(Rng& r) { A a = G<A>::make(r); return {a, G<B>::make(r)}; } };
template <typename... A> struct G<std::tuple<A...>> { static std::tuple<A...> make(Rng& r) { return std::tuple<A...>{G<A>::make(r)...}; } };
template <typename... A> struct G<mp::type::tuple<A...>> { static mp::type::tuple<A...> make(Rng& r) { return mp::type::tuple<A...>(G<A>::make(r)...); } };
template <typename T> struct G<std::vector<T>, typename std::enable_if<!std::is_same<T, bool>::value>::type> { static std::vector<T> make(Rng& r) { std::vector<T> v; for (int64_t n = r.below(4); n > 0; n--) v.push_back(G<T>::make(r)); return v; } };
template <typename T, size_t N> struct G<std::array<T, N>> { static std::array<T, N> make(Rng& r) { std::array<T, N> v; for (auto& x : v) x = G<T>::make(r); return v; } };
template <typename T> struct G<std::optional<T>> { static std::optional<T> make(Rng& r) { if (r.chance(1, 3)) return std::nullopt; return G<T>::make(r); } };
template <typename T> struct G<std::shared_ptr<T>> { static std::shared_ptr<T> make(Rng& r) { if (r.chance(1, 3)) return nullptr; return std::make_shared<T>(G<T>::make(r)); } };

// partial: the object has fewer elements than the type; a fresh target may keep unspecified values there, or the object may be refused
struct St { bool partial = false; };
template <typename T, typename E = void> struct Conv;
template <typename T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static bool run(const Node& n, T& v, St&) {
        typedef std::numeric_limits<T> L;
        if (n.t == Node::UINT) { if (n.u > (uint64_t)L::max()) return false; v = (T)n.u; return true; }
        if (n.t == Node::NEG) { if (!L::is_signed || (int64_t)n.u < (int64_t)L::min()) return false; v = (T)(int64_t)n.u; return true; }
        return false;
    }
};
template <> struct Conv<bool> { static bool run(const Node& n, bool& v, St&) { if (n.t != Node::BOOL) return false; v = n.u != 0; return true; } };
template <> struct Conv<double> {
    static bool run(const Node& n, double& v, St&) {
        if (n.t == Node::F32 || n.t == Node::F64) { v = n.f(); return true; }
        if (n.t == Node::UINT) { v = (double)n.u; return true; }
        if (n.t == Node::NEG) { v = (double)(int64_t)n.u; return true; }
        return false;
    }
};
static bool bytesOf(const Node& n) { return n.t == Node::STR || n.t == Node::BIN; }
template <> struct Conv<std::string> { static bool run(const Node& n, std::string& v, St&) { if (!bytesOf(n)) return false; v = n.s; return true; } };
template <typename C> struct SeqConv {
    static bool run(const Node& n, C& v, St& st) {
        if (n.t != Node::ARR) return false;
        v.resize(n.c.size());
        size_t i = 0;
        for (auto& e : v) if (!Conv<typename std::decay<decltype(e)>::type>::run(n.c[i++], e, st)) return false;
        return true;
    }
};
template <typename T> struct Conv<std::vector<T>, typename std::enable_if<!std::is_same<T, bool>::value && !std::is_same<T, unsigned char>::value && !std::is_same<T, char>::value>::type> : SeqConv<std::vector<T>> {};
template <typename T> struct Conv<std::list<T>> : SeqConv<std::list<T>> {};
template <typename T> struct Conv<std::deque<T>> : SeqConv<std::deque<T>> {};
template <typename T> struct Conv<std::forward_list<T>> : SeqConv<std::forward_list<T>> {};
template <> struct Conv<std::wstring> : SeqConv<std::wstring> {};
template <> struct Conv<std::vector<bool>> {
    static bool run(const Node& n, std::vector<bool>& v, St&) {
        if (n.t != Node::ARR) return false;
        v.clear();
        for (auto& x : n.c) { if (x.t != Node::BOOL) return false; v.push_back(x.u != 0); }
        return true;
    }
};
template <typename T> struct Conv<std::vector<T>, typename std::enable_if<std::is_same<T, unsigned char>::value || std::is_same<T, char>::value>::type> {
    static bool run(const Node& n, std::vector<T>& v, St&) { if (!bytesOf(n)) return false; v.assign(n.s.begin(), n.s.end()); return true; }
};
template <typename S> struct SetConv {
    static bool run(const Node& n, S& v, St& st) {
        if (n.t != Node::ARR) return false;
        v.clear();
        for (auto& x : n.c) { typename S::value_type e{}; if (!Conv<typename S::value_type>::run(x, e, st)) return false; v.insert(e); }
        return true;
    }
};
template <typename T> struct Conv<std::set<T>> : SetConv<std::set<T>> {};
template <typename T> struct Conv<std::multiset<T>> : SetConv<std::multiset<T>> {};
template <typename T> struct Conv<std::unordered_set<T>> : SetConv<std::unordered_set<T>> {};
template <typename T> struct Conv<std::unordered_multiset<T>> : SetConv<std::unordered_multiset<T>> {};
template <typename M> struct MultiConv {
    static bool run(const Node& n, M& v, St& st) {
        if (n.t != Node::MAP) return false;
        M m;
        for (size_t i = 0; i < n.c.size(); i += 2) {
            typename M::key_type k{};
            typename M::mapped_type x{};
            if (!Conv<typename M::key_type>::run(n.c[i], k, st) || !Conv<typename M::mapped_type>::run(n.c[i + 1], x, st)) return false;
            m.insert({k, x});
        }
        v = std::move(m);
        return true;
    }
};
template <typename K, typename V> struct Conv<std::multimap<K, V>> : MultiConv<std::multimap<K, V>> {};
template <typename K, typename V> struct Conv<std::unordered_multimap<K, V>> : MultiConv<std::unordered_multimap<K, V>> {};
template <typename M> struct MapConv {
    static bool run(const Node& n, M& v, St& st) {
        if (n.t != Node::MAP) return false;
        M m;
        for (size_t i = 0; i < n.c.size(); i += 2) {
            typename M::key_type k{};
            if (!Conv<typename M::key_type>::run(n.c[i], k, st)) return false;
            if (!Conv<typename M::mapped_type>::run(n.c[i + 1], m[k], st)) return false;
        }
        v = std::move(m);
        return true;
    }
};
template <typename K, typename V> struct Conv<std::map<K, V>> : MapConv<std::map<K, V>> {};
template <typename K, typename V> struct Conv<std::unordered_map<K, V>> : MapConv<std::unordered_map<K, V>> {};
template <typename A, typename B> struct Conv<std::pair<A, B>> {
    static bool run(const Node& n, std::pair<A, B>& v, St& st) { return n.t == Node::ARR && n.c.size() == 2 && Conv<A>::run(n.c[0], v.first, st) && Conv<B>::run(n.c[1], v.second, st); }
};
template <typename Tp, size_t I, size_t N> struct TupConv {
    static bool run(const Node& n, Tp& v, St& st) {
        if (n.c.size() <= I) { st.partial = true; return true; }
        return Conv<typename std::tuple_element<I, Tp>::type>::run(n.c[I], std::get<I>(v), st) && TupConv<Tp, I + 1, N>::run(n, v, st);
    }
};
template <typename Tp, size_t N> struct TupConv<Tp, N, N> { static bool run(const Node&, Tp&, St&) { return true; } };
template <typename... A> struct Conv<std::tuple<A...>> { static bool run(const Node& n, std::tuple<A...>& v, St& st) { return n.t == Node::ARR && TupConv<std::tuple<A...>, 0, sizeof...(A)>::run(n, v, st); } };
template <typename... A> struct Conv<mp::type::tuple<A...>> {
    static bool run(const Node& n, mp::type::tuple<A...>& v, St& st) { std::tuple<A...>& b = v; return n.t == Node::ARR && TupConv<std::tuple<A...>, 0, sizeof...(A)>::run(n, b, st); }
};
template <typename T, size_t N> struct Conv<std::array<T, N>, typename std::enable_if<!std::is_same<T, unsigned char>::value && !std::is_same<T, char>::value>::type> {
    static bool run(const Node& n, std::array<T, N>& v, St& st) {
        if (n.t != Node::ARR || n.c.size() > N) return false;
        if (n.c.size() < N) st.partial = true;
        for (size_t i = 0; i < n.c.size(); i++) if (!Conv<T>::run(n.c[i], v[i], st)) return false;
        return true;
    }
};
template <typename T, size_t N> struct Conv<std::array<T, N>, typename std::enable_if<std::is_same<T, unsigned char>::value || std::is_same<T, char>::value>::type> {
    static bool run(const Node& n, std::array<T, N>& v, St& st) {
        if (!bytesOf(n) || n.s.size() > N) return false;
        if (n.s.size() < N) st.partial = true;
        memcpy(v.data(), n.s.data(), n.s.size());
        return true;
    }
};
template <typename T, size_t N> struct Conv<T[N]> {
    static bool run(const Node& n, T (&v)[N], St& st) {
        if (sizeof(T) == 1) {
            if (!bytesOf(n) || n.s.size() > N) return false;
            if (n.s.size() < N) st.partial = true;
            memcpy(v, n.s.data(), n.s.size());
            if (n.t == Node::STR && n.s.size() < N) v[n.s.size()] = 0;
            return true;
        }
        if (n.t != Node::ARR || n.c.size() > N) return false;
        if (n.c.size() < N) st.partial = true;
        for (size_t i = 0; i < n.c.size(); i++) if (!Conv<T>::run(n.c[i], v[i], st)) return false;
        return true;
    }
};
template <typename T> struct Conv<std::optional<T>> {
    static bool run(const Node& n, std::optional<T>& v, St& st) {
        if (n.t == Node::NIL) { v = std::nullopt; return true; }
        T t{};
        if (!Conv<T>::run(n, t, st)) return false;
        v = t;
        return true;
    }
};
template <typename T> struct Conv<std::shared_ptr<T>> {
    static bool run(const Node& n, std::shared_ptr<T>& v, St& st) {
        if (n.t == Node::NIL) { v.reset(); return true; }
        auto t = std::make_shared<T>();
        if (!Conv<T>::run(n, *t, st)) return false;
        v = t;
        return true;
    }
};
template <> struct Conv<std::complex<double>> {
    static bool run(const Node& n, std::complex<double>& v, St& st) {
        double a, b;
        if (n.t != Node::ARR || n.c.size() != 2 || !Conv<double>::run(n.c[0], a, st) || !Conv<double>::run(n.c[1], b, st)) return false;
        v = {a, b};
        return true;
    }
};
template <typename D> struct Conv<std::chrono::time_point<SC, D>> {
    static bool run(const Node& n, std::chrono::time_point<SC, D>& v, St&) {
        if (n.t != Node::EXT || n.ext != -1) return false;
        const unsigned char* p = (const unsigned char*)n.s.data();
        auto be = [&](size_t o, size_t k) { uint64_t x = 0; for (size_t i = 0; i < k; i++) x = x << 8 | p[o + i]; return x; };
        __int128 sec, ns;
        if (n.s.size() == 4) { sec = be(0, 4); ns = 0; }
        else if (n.s.size() == 8) { uint64_t x = be(0, 8); ns = x >> 34; sec = x & 0x3ffffffffull; }
        else if (n.s.size() == 12) { ns = be(0, 4); sec = (int64_t)be(4, 8); }
        else return false;
        // the units of D, below a second rounded towards the epoch as the library's packing does for D finer than a second
        __int128 per = (__int128)D::period::den / D::period::num;  // units per second
        __int128 s2 = sec, n2 = ns;
        if (n.s.size() == 12 && sec <= 0 && ns != 0) { s2 = sec + 1; n2 = ns - 1000000000; }
        __int128 units = s2 * per + n2 * per / 1000000000;
        if (units > (__int128)std::numeric_limits<typename D::rep>::max() || units < (__int128)std::numeric_limits<typename D::rep>::min()) return false;
        v = std::chrono::time_point<SC, D>(D((typename D::rep)units));
        return true;
    }
};
template <> struct Conv<c12::Arr4> {
    static bool run(const Node& n, c12::Arr4& v, St& st) {
        if (n.t != Node::ARR) return false;
        size_t k = n.c.size();
        if (k < 4) st.partial = true;
        return (k < 1 || Conv<int32_t>::run(n.c[0], v.a, st)) && (k < 2 || Conv<std::string>::run(n.c[1], v.b, st)) && (k < 3 || Conv<bool>::run(n.c[2], v.c, st)) && (k < 4 || Conv<double>::run(n.c[3], v.d, st));
    }
};
template <> struct Conv<c12::CArr> {
    static bool run(const Node& n, c12::CArr& v, St& st) {
        if (n.t != Node::ARR) return false;
        size_t k = n.c.size();
        if (k < 3) st.partial = true;
        return (k < 1 || Conv<int32_t[3]>::run(n.c[0], v.a, st)) && (k < 2 || Conv<char[6]>::run(n.c[1], v.b, st)) && (k < 3 || Conv<unsigned char[4]>::run(n.c[2], v.c, st));
    }
};
template <> struct Conv<c12::Bits> {
    static bool run(const Node& n, c12::Bits& v, St& st) {
        if (n.t != Node::ARR) return false;
        size_t k = n.c.size();
        if (k < 3) st.partial = true;
        return (k < 1 || Conv<std::vector<bool>>::run(n.c[0], v.v, st)) && (k < 2 || Conv<std::array<char, 5>>::run(n.c[1], v.s, st)) && (k < 3 || Conv<std::array<unsigned char, 3>>::run(n.c[2], v.u, st));
    }
};
template <> struct Conv<c12::Map3> {
    static bool run(const Node& n, c12::Map3& v, St& st) {
        if (n.t != Node::MAP) return false;
        const Node* f[3] = {nullptr, nullptr, nullptr};
        for (size_t i = 0; i < n.c.size(); i += 2) {
            if (n.c[i].t != Node::STR) return false;
            const char* names[] = {"id", "items", "opt"};
            for (int k = 0; k < 3; k++) if (n.c[i].s == names[k] && !f[k]) f[k] = &n.c[i + 1];
        }
        if (!f[0] || !f[1] || !f[2]) st.partial = true;
        return (!f[0] || Conv<int64_t>::run(*f[0], v.id, st)) && (!f[1] || Conv<std::vector<std::string>>::run(*f[1], v.items, st)) && (!f[2] || Conv<std::optional<int>>::run(*f[2], v.opt, st));
    }
};

template <typename T> bool same(const T& a, const T& b) { return Eq<T>::eq(a, b); }
template <typename... A> bool same(const mp::type::tuple<A...>& a, const mp::type::tuple<A...>& b) { const std::tuple<A...>&x = a, &y = b; return x == y; }
// Parts replaced, removed, added, resized.
static void mutate(Node& root, Rng& r) {
    std::vector<Node*> all;
    std::function<void(Node&)> walk = [&](Node& n) { all.push_back(&n); for (auto& x : n.c) walk(x); };
    walk(root);
    Node& n = *all[(size_t)(r.chance(1, 3) ? 0 : r.below((int64_t)all.size()))];
    switch (r.below(7)) {
        case 0: n = mref::random(r, 1, 0); break;
        case 1: case 2:  // fewer elements
            if (n.t == Node::ARR) n.c.resize((size_t)r.below((int64_t)n.c.size() + 1));
            else if (n.t == Node::MAP) n.c.resize(2 * (size_t)r.below((int64_t)n.c.size() / 2 + 1));
            else n.s.resize((size_t)r.below((int64_t)n.s.size() + 1));
            break;
        case 3:  // more elements
            if (n.t == Node::ARR) n.c.insert(n.c.begin() + r.below((int64_t)n.c.size() + 1), r.chance(1, 2) && !n.c.empty() ? Node(n.c[0]) : mref::random(r, 1, 0));
            else if (n.t == Node::MAP) { Node k = n.c.empty() || r.chance(1, 2) ? mref::random(r, 1, 0) : Node(n.c[0]), v = mref::random(r, 1, 0); n.c.push_back(k); n.c.push_back(v); }
            else if (bytesOf(n)) n.s += r.bytes((size_t)r.range(1, 4), 0);
            break;
        case 4: if (n.t == Node::STR) n.t = Node::BIN; else if (n.t == Node::BIN) n.t = Node::STR; else if (n.t == Node::ARR && n.c.size() % 2 == 0) n.t = Node::MAP; else if (n.t == Node::MAP) n.t = Node::ARR; else n = Node::nil(); break;
        case 5: n = Node::integer(Gen<int64_t>::make(r, 0)); break;
        default: if (n.t == Node::EXT) { n.ext = (int8_t)(r.chance(3, 4) ? -1 : r.next()); n.s = r.bytes((size_t)r.pick(std::vector<int64_t>{4, 8, 12, 12, 12, 3, 16}), 0); if (n.s.size() == 12 && r.chance(1, 2)) { uint64_t s = (uint64_t)r.range(-9300000000LL, 9300000000LL); for (int i = 0; i < 8; i++) n.s[(size_t)(4 + i)] = (char)(s >> (56 - 8 * i)); } }
                 else n = mref::random(r, 0, 0); break;
    }
}
template <typename T> void one(Rng& r, const char* name) {
    T val = G<T>::make(r);
    Node n;
    {
        mp::sbuffer b;
        mp::pack(b, val);
        std::string d(b.data(), b.size());
        size_t off = 0;
        if (mref::decode(d, off, n) != mref::OK) fail(std::string("packing a ") + name + " gave " + hex(d, 60));
    }
    for (int64_t k = r.below(4); k > 0; k--) mutate(n, r);
    std::function<void(Node&)> noNan = [&](Node& x) { if ((x.t == Node::F32 || x.t == Node::F64) && mref::isnanBits(x.u)) x = Node::f64(1.5); for (auto& y : x.c) noNan(y); };
    noNan(n);  // compared with ==
    Rng w(r.next());
    std::string enc = mref::encode(n, r.chance(1, 2) ? &w : nullptr);
    char* p = (char*)malloc(enc.size());
    memcpy(p, enc.data(), enc.size());
    std::unique_ptr<char, void (*)(void*)> hold(p, free);
    phase(strf("converting %s to %s", mref::show(n).c_str(), name));
    mp::object_handle oh = mp::unpack(p, enc.size(), [](mp::type::object_type, std::size_t, void*) { return true; });
    // two targets that hold the same value
    T got{}, want{};
    { T v = G<T>::make(r); mp::sbuffer b; mp::pack(b, v); mp::unpack(b.data(), b.size())->convert(want); mp::unpack(b.data(), b.size())->convert(got); }
    St st;
    bool ok = Conv<T>::run(n, want, st), conv = false;
    std::string err;
    try { oh->convert(got); conv = true; } catch (mp::type_error&) { err = "type_error"; } catch (std::exception& e) { fail(strf("converting %s to %s threw %s", mref::show(n).c_str(), name, e.what())); }
    if (conv != ok) fail(strf("converting %s to %s %s", mref::show(n).c_str(), name, conv ? "succeeded" : "was refused"));
    if (conv && !same(got, want)) fail(strf("converting %s to %s gave another value", mref::show(n).c_str(), name));
    St st2;
    T want2{};
    bool ok2 = Conv<T>::run(n, want2, st2), as = false;
    try { T v = oh->as<T>(); as = true; if (ok2 && !st2.partial && !same(v, want2)) fail(strf("%s as %s is another value", mref::show(n).c_str(), name)); }
    catch (mp::type_error&) {} catch (std::exception& e) { fail(strf("%s as %s threw %s", mref::show(n).c_str(), name, e.what())); }
    if (as != ok2 && !st2.partial) fail(strf("%s as %s %s", mref::show(n).c_str(), name, as ? "succeeded" : "was refused"));
}
}  // namespace cv
}  // namespace c02

namespace c12 {
using namespace c02::cv;
void opConv(Rng& r) {
    typedef std::chrono::time_point<SC, std::chrono::milliseconds> Ms;
    typedef std::chrono::time_point<SC, std::chrono::seconds> Sec;
#define T(...) [](Rng& q) { one<__VA_ARGS__>(q, #__VA_ARGS__); }
    static const std::vector<void (*)(Rng&)> all = {
        T(bool), T(int8_t), T(uint16_t), T(int32_t), T(uint64_t), T(double), T(std::string), T(std::vector<int>), T(std::vector<std::string>), T(std::vector<bool>), T(std::vector<unsigned char>), T(std::vector<char>),
        T(std::list<std::string>), T(std::deque<int64_t>), T(std::forward_list<int>), T(std::set<std::string>), T(std::map<std::string, int>), T(std::map<int, std::vector<std::string>>), T(std::unordered_map<std::string, double>),
        T(std::pair<int, std::string>), T(std::tuple<int, std::string, double>), T(std::tuple<std::wstring, int>), T(std::tuple<int, std::string, SC::time_point>), T(std::tuple<std::tuple<std::wstring, bool>, std::string>),
        T(mp::type::tuple<int, std::string>), T(mp::type::tuple<std::wstring, int, bool>), T(std::array<int, 3>), T(std::array<std::string, 2>), T(std::array<SC::time_point, 2>), T(std::array<std::wstring, 3>), T(std::array<char, 6>),
        T(std::array<unsigned char, 5>), T(std::optional<int>), T(std::optional<std::vector<std::string>>), T(std::shared_ptr<std::string>), T(std::complex<double>), T(std::wstring), T(SC::time_point), T(Ms), T(Sec),
        T(Arr4), T(Map3), T(CArr), T(Bits), T(std::vector<Bits>), T(std::vector<CArr>), T(std::vector<Arr4>), T(std::map<std::string, Map3>), T(std::vector<std::tuple<std::wstring, int>>), T(std::pair<std::wstring, SC::time_point>),
        T(std::vector<std::vector<bool>>), T(std::tuple<std::vector<bool>, std::string>), T(std::vector<mp::type::tuple<int, int>>), T(std::vector<std::pair<int, Map3>>), T(std::multiset<int>), T(std::unordered_set<std::string>),
        T(std::unordered_multiset<int>), T(std::multimap<std::string, int>), T(std::unordered_multimap<int, std::string>), T(std::vector<std::multiset<std::string>>), T(std::map<int, std::multimap<int, bool>>)};
#undef T
    all[(size_t)r.below((int64_t)all.size())](r);
}
}  // namespace c12
