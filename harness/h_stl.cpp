// The header-only containers (drjit-core/nanostl.h) and hash functions against
// simple reference models, over symbolic operation sequences and contents.
#include "sym.h"
#include <drjit-core/jit.h>
#include <drjit-core/nanostl.h>
#include <drjit-core/hash.h>
#include <limits>
#define ENTRY extern "C" __attribute__((used)) void
ENTRY harness_setup() { }
// ------------------------------------------------------------------ vector
static int64_t live = 0;
struct Tracked { // counts instances, owns memory, and knows whether it is alive
    Tracked *self = this; uint32_t *p;
    Tracked(uint32_t v = 0) : p(new uint32_t(v)) { live++; }
    Tracked(const Tracked &t) : p(new uint32_t(t.val())) { live++; }
    Tracked(Tracked &&t) : p(t.p) { t.check(); t.p = new uint32_t(0xdead); live++; }
    Tracked &operator=(const Tracked &t) { check(); *p = t.val(); return *this; }
    ~Tracked() { check(); self = nullptr; delete p; live--; }
    void check() const { sym_assert(self == this, "elements are constructed before use and destroyed once"); }
    uint32_t val() const { check(); return *p; }
    bool operator!=(const Tracked &t) const { return val() != t.val(); }
};
struct alignas(64) Wide { uint32_t v; Wide(uint32_t v = 0) : v(v) { sym_assert(((uintptr_t) this & 63) == 0, "elements are stored at their alignment"); } bool operator!=(const Wide &w) const { return v != w.v; } };
static uint32_t get(const Tracked &t) { return t.val(); }
static uint32_t get(const Wide &t) { return t.v; }
static uint32_t get(uint32_t v) { return v; }
struct Model {
    uint32_t d[24]; uint32_t n = 0;
    void push(uint32_t v) { d[n++] = v; }
};
template <typename T> static void check(const drjit::vector<T> &v, const Model &m) {
    sym_assert(v.size() == m.n && v.capacity() >= m.n && v.empty() == (m.n == 0), "size, capacity and emptiness are consistent");
    sym_assert(v.end() - v.begin() == (ptrdiff_t) m.n && v.data() == v.begin(), "iterators span the contents");
    for (uint32_t i = 0; i < m.n; ++i) sym_assert(get(v[i]) == m.d[i], "the vector holds the elements of the model");
    if (m.n) sym_assert(get(v.back()) == m.d[m.n - 1], "the last element is the model's");
}
template <typename T> static void run_vec(int depth) {
    uint64_t h0 = sym_heap_live(); int64_t l0 = live;
    {
        drjit::vector<T> v, w; Model m, k;
        for (int s = 0; s < depth; ++s) {
            uint32_t op = s == 0 ? (uint32_t) sym_param(1) : sym_choose("op", 17);
            switch (op) {
                case 0: { uint32_t x = sym_u32("x"); T t(x); v.push_back(t); m.push(x); sym_assert(get(t) == x, "the source of a copy is unchanged"); break; }
                case 1: { uint32_t x = sym_u32("x"); v.push_back(T(x)); m.push(x); break; }
                case 2: { uint32_t x = sym_u32("x"); T &r = v.emplace_back(x); m.push(x); sym_assert(&r == &v.back(), "emplace_back returns the new element"); break; }
                case 3: if (m.n) { v.pop_back(); m.n--; } break;
                case 4: { uint32_t n = sym_choose("n", 5), x = sym_u32("x"); v.resize(n, T(x)); while (m.n < n) m.push(x); m.n = n; break; }
                case 5: v.resize(3); while (m.n < 3) m.push(0); m.n = 3; break;
                case 6: { uint32_t n = sym_choose("r", 4) * 2; v.reserve(n); sym_assert(v.capacity() >= n, "reserve provides the capacity"); break; }
                case 7: v.clear(); m.n = 0; break;
                case 8: { drjit::vector<T> c(v); check(c, m); w = c; k = m; break; }
                case 9: w = v; k = m; break;
                case 10: w = std::move(v); k = m; m.n = 0; sym_assert(v.size() == 0, "a moved-from vector is empty"); break;
                case 11: { v.swap(w); Model t = m; m = k; k = t; break; }
                case 12: { drjit::vector<T> c((size_t) 3); w = std::move(c); k.n = 0; for (int i = 0; i < 3; ++i) k.push(0); break; }
                case 13: { uint32_t x = sym_u32("x"); drjit::vector<T> c((size_t) 2, T(x)); w = std::move(c); k.n = 0; k.push(x); k.push(x); break; }
                case 14: { drjit::vector<T> c(v.begin(), v.end()); w = std::move(c); k = m; break; }
                case 15: { bool e = m.n == k.n; if (e) for (uint32_t i = 0; i < m.n; ++i) e &= m.d[i] == k.d[i]; sym_assert((v == w) == e && (v != w) == !e, "equality compares contents"); break; }
                case 16: v = v; break;
            }
            check(v, m); check(w, k);
        }
    }
    sym_assert(live == l0, "every element is destroyed exactly once");
    sym_assert(sym_heap_live() == h0, "no memory is leaked");
    sym_reach("end");
}
ENTRY t_vec() { // params: element type, first operation, depth
    switch (sym_param(0)) { case 0: run_vec<uint32_t>((int) sym_param(2)); break; case 1: run_vec<Tracked>((int) sym_param(2)); break; case 2: run_vec<Wide>((int) sym_param(2)); break; }
}
// ------------------------------------------------------------------ string
struct SModel { char d[160]; uint32_t n = 0; void put(const char *s, uint32_t l) { for (uint32_t i = 0; i < l; ++i) d[n++] = s[i]; } };
static void check(const drjit::string &s, const SModel &m) {
    sym_assert(s.size() == m.n && s.length() == m.n && s.capacity() >= m.n, "size and capacity are consistent");
    for (uint32_t i = 0; i < m.n; ++i) sym_assert(s[i] == m.d[i], "the string holds the characters of the model");
    sym_assert(s.c_str()[m.n] == '\0', "the string is null-terminated");
}
static char c1(const char *n) { uint8_t c = sym_u8(n); sym_assume(c != 0); return (char) c; }
template <typename T> static void digits(SModel &m, T v) { // decimal representation
    uint64_t u = (uint64_t) v; bool neg = false;
    if constexpr (std::is_signed_v<T>) if (v < 0) { neg = true; u = 0 - (uint64_t) (int64_t) v; }
    char b[24]; int o = 24;
    if constexpr (sizeof(T) == 8) { do { b[--o] = (char) ('0' + u % 10); u /= 10; } while (u); }
    else { using U = std::make_unsigned_t<T>; U x = (U) u; do { b[--o] = (char) ('0' + x % 10); x = (U) (x / 10); } while (x); }
    if (neg) b[--o] = '-';
    m.put(b + o, (uint32_t) (24 - o));
}
ENTRY t_str() { // params: first operation, depth
    uint64_t h0 = sym_heap_live();
    {
        drjit::string v, w; SModel m, k;
        int depth = (int) sym_param(1);
        for (int s = 0; s < depth; ++s) {
            uint32_t op = s == 0 ? (uint32_t) sym_param(0) : sym_choose("op", 22);
            char c[4] = { 0, 0, 0, 0 };
            switch (op) {
                case 0: c[0] = c1("c"); c[1] = c1("c"); c[2] = c1("c"); v.put((const char *) c); m.put(c, 3); break;
                case 1: c[0] = c1("c"); v = c[0]; m.n = 0; m.put(c, 1); break;
                case 2: c[0] = c1("c"); v.put(c[0], "ab", c[0]); m.put(c, 1); m.put("ab", 2); m.put(c, 1); break;
                case 3: { uint32_t n = sym_choose("n", 4); uint32_t o = m.n; char f = c1("c"); v.resize(n * 2, f); m.n = n * 2; for (uint32_t i = o; i < m.n; ++i) m.d[i] = f; break; }
                case 4: { uint32_t n = sym_choose("n", 4) * 3; v.reserve(n); sym_assert(v.capacity() >= n, "reserve provides the capacity"); break; }
                case 5: v.clear(); m.n = 0; break;
                case 6: { drjit::string t(v); check(t, m); w = t; k = m; break; }
                case 7: w = std::move(v); k = m; m.n = 0; sym_assert(v.size() == 0, "a moved-from string is empty"); break;
                case 8: { v.swap(w); SModel t = m; m = k; k = t; break; }
                case 9: { uint32_t n = sym_choose("n", 3); v.indent(n); for (uint32_t i = 0; i < n; ++i) m.d[m.n++] = ' '; break; }
                case 10: if (m.n + k.n < 120) { v += w; m.put(k.d, k.n); } break;
                case 11: if (m.n + k.n < 120) { bool z = false; for (uint32_t i = 0; i < k.n; ++i) z |= k.d[i] == 0; sym_assume(!z); drjit::string t = v + w.c_str(); SModel q = m; q.put(k.d, k.n); check(t, q); w = std::move(t); k = q; } break;
                case 12: { drjit::string t = drjit::string("xy") + 'q' + 12; SModel q; q.put("xyq12", 5); check(t, q); break; }
                case 13: { bool e = m.n == k.n; if (e) for (uint32_t i = 0; i < m.n; ++i) e &= m.d[i] == k.d[i]; sym_assert((v == w) == e && (v != w) == !e, "equality compares contents"); break; }
                case 14: { c[0] = c1("c"); c[1] = 0; c[2] = c1("c"); drjit::string t(c, 3); SModel q; q.put(c, 3); check(t, q); w = t; k = q; break; }
                case 15: v.put(true, false, 'z'); m.put("10z", 3); break;
                case 16: w = v; k = m; break;
                case 17: { drjit::string t("literal"); SModel q; q.put("literal", 7); check(t, q); v.put(t, "?"); m.put("literal?", 8); break; }
                case 18: if (m.n < 60) { v.put(v); SModel t = m; m.put(t.d, t.n); } break;
                case 19: { drjit::string t = "ab" + v; SModel q; q.put("ab", 2); q.put(m.d, m.n); check(t, q); break; }
                case 20: v.put(-120, 7u); m.put("-1207", 5); break;
                case 21: if (m.n) { char x = c1("c"); v[m.n - 1] = x; m.d[m.n - 1] = x; } break;
            }
            check(v, m); check(w, k);
        }
    }
    sym_assert(sym_heap_live() == h0, "no memory is leaked");
    sym_reach("end");
}
template <typename T> static void run_num(T x) {
    SModel m; digits(m, x);
    drjit::string s(x); check(s, m);
    drjit::string t("v="); t.put(x, ";"); SModel q; q.put("v=", 2); q.put(m.d, m.n); q.put(";", 1); check(t, q);
    sym_reach("end");
}
static uint64_t num64() {
    if (!sym_param(1)) return sym_u64("x");
    if (sym_choose("small", 2)) { return sym_u32("x"); }
    const uint64_t b[] = { 0, 10000000000ull, 1000000000000000000ull, 10000000000000000000ull, (uint64_t) INT64_MIN };
    uint64_t r = b[sym_choose("k", 5)] + sym_choose("d", 5) - 2; // around some powers of ten and the ends of the ranges
    return sym_choose("neg", 2) ? 0 - r : r;
}
ENTRY t_num() { // param: type, 64-bit values: 0 all, 1 around some powers of ten
    switch (sym_param(0)) {
        case 0: run_num<int8_t>((int8_t) sym_u8("x")); break; case 1: run_num<uint8_t>(sym_u8("x")); break;
        case 2: run_num<int16_t>((int16_t) sym_u16("x")); break; case 3: run_num<uint16_t>(sym_u16("x")); break;
        case 4: run_num<int32_t>((int32_t) sym_u32("x")); break; case 5: run_num<uint32_t>(sym_u32("x")); break;
        case 6: run_num<int64_t>((int64_t) num64()); break; case 7: run_num<uint64_t>(num64()); break;
        case 8: { // pointers: hexadecimal
            uint64_t x = sym_u64("x"); SModel m; m.put("0x", 2);
            char b[16]; int o = 16; uint64_t u = x;
            do { b[--o] = "0123456789abcdef"[u & 15]; u >>= 4; } while (u);
            m.put(b + o, (uint32_t) (16 - o));
            drjit::string s((const void *) (uintptr_t) x); check(s, m); sym_reach("end"); break; }
    }
}
// ------------------------------------------------- unique_ptr, tuple, hashes
ENTRY t_ptr() {
    uint64_t h0 = sym_heap_live(); int64_t l0 = live;
    {
        drjit::unique_ptr<Tracked> p, q; uint32_t pv = 0, qv = 0; bool pp = false, qp = false;
        drjit::unique_ptr<Tracked[]> a; uint32_t an = 0;
        for (int s = 0; s < (int) sym_param(1); ++s) {
            switch (s == 0 ? (uint32_t) sym_param(0) : sym_choose("op", 9)) {
                case 0: pv = sym_u32("x"); p = drjit::make_unique<Tracked>(pv); pp = true; break;
                case 1: p.reset(); pp = false; break;
                case 2: pv = sym_u32("x"); p.reset(new Tracked(pv)); pp = true; break;
                case 3: q = std::move(p); qp = pp; qv = pv; pp = false; break;
                case 4: { Tracked *r = p.release(); sym_assert((r != nullptr) == pp, "release returns the object"); delete r; pp = false; break; }
                case 5: { drjit::unique_ptr<Tracked> t(std::move(q)); sym_assert(!q && !!t == qp, "moving transfers ownership"); p = std::move(t); pp = qp; pv = qv; qp = false; break; }
                case 6: an = 3; a = drjit::unique_ptr<Tracked[]>(new Tracked[3]); a[1] = Tracked(7); break;
                case 7: { drjit::unique_ptr<Tracked[]> t(std::move(a)); sym_assert(!a, "moving transfers ownership"); if (an) sym_assert(t[1].val() == 7, "array elements are preserved"); a = std::move(t); break; }
                case 8: a.reset(); an = 0; break;
            }
            sym_assert((bool) p == pp && !p == !pp && (bool) q == qp && (p.get() != nullptr) == pp && (bool) a == (an != 0), "a pointer is set exactly when it owns an object");
            if (pp) sym_assert(p->val() == pv, "the owned object is preserved");
            if (qp) sym_assert(q.get()->val() == qv, "the owned object is preserved");
        }
    }
    sym_assert(live == l0 && sym_heap_live() == h0, "owned objects are destroyed exactly once");
    sym_reach("end");
}
ENTRY t_tuple() {
    uint64_t h0 = sym_heap_live(); int64_t l0 = live;
    {
        uint32_t a = sym_u32("a"); uint64_t b = sym_u64("b"); uint8_t c = sym_u8("c"); uint32_t d = sym_u32("d");
        drjit::tuple<uint32_t, uint64_t, uint8_t> t(a, b, c);
        sym_assert(drjit::get<0>(t) == a && drjit::get<1>(t) == b && drjit::get<2>(t) == c, "elements are stored in order");
        auto [x, y, z] = t; sym_assert(x == a && y == b && z == c, "structured bindings");
        auto u = drjit::make_tuple(a, b, c); t = u; sym_assert(drjit::get<2>(t) == c && drjit::get<0>(u) == a, "make_tuple, assignment");
        uint32_t p; uint64_t q; uint8_t r; drjit::tie(p, q, r) = t; sym_assert(p == a && q == b && r == c, "tie assigns through references");
        drjit::get<1>(t) = d; sym_assert(drjit::get<1>(t) == d && drjit::get<0>(t) == a && drjit::get<2>(t) == c, "get returns a reference");
        drjit::tuple<uint64_t, uint64_t, uint32_t> w(u); sym_assert(drjit::get<0>(w) == a && drjit::get<1>(w) == b && drjit::get<2>(w) == c, "converting constructor");
        w = t; sym_assert(drjit::get<0>(w) == a && drjit::get<1>(w) == d && drjit::get<2>(w) == c, "converting assignment");
        drjit::tuple<Tracked, uint32_t> o(Tracked(a), d), o2(o); sym_assert(drjit::get<0>(o2).val() == a && drjit::get<0>(o).val() == a && drjit::get<1>(o2) == d, "copies are independent");
        drjit::get<0>(o2) = Tracked(d); sym_assert(drjit::get<0>(o).val() == a, "copies are independent");
        drjit::tuple<Tracked, uint32_t> o3(std::move(o)); sym_assert(drjit::get<0>(o3).val() == a && drjit::get<1>(o3) == d, "moves preserve values");
        auto &&f = drjit::get<0>(drjit::make_tuple(c, a)); uint8_t g = f; (void) g;
        sym_assert((std::is_same_v<std::tuple_element<1, decltype(t)>::type, uint64_t> && std::tuple_size<decltype(t)>::value == 3), "tuple traits");
    }
    sym_assert(live == l0 && sym_heap_live() == h0, "tuple elements are destroyed exactly once");
    sym_reach("end");
}
ENTRY t_hash() {
    uint32_t a = sym_u32("a"), h = a;
    h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
    sym_assert(fmix32(a) == h && UInt32Hasher()(a) == (size_t) h, "32-bit hash is MurmurHash's finalizer");
    uint64_t b = sym_u64("b"), k = b;
    k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33;
    sym_assert(fmix64(b) == k && UInt64Hasher()(b) == (size_t) k && PointerHasher()((void *) b) == (size_t) k, "64-bit hash is MurmurHash's finalizer");
    sym_observe("h", h); sym_observe("k", k);
    sym_reach("end");
}
