// 16-bit floats (drjit-core/half.h): conversions and operators against an
// integer-only reference.
#define DRJIT_INCLUDE_FLOAT16_FALLBACK 1
#include "sym.h"
#include <drjit-core/half.h>
#include <type_traits>
#define ENTRY extern "C" __attribute__((used)) void
ENTRY harness_setup() { }
using drjit::half;
template <typename A, typename B> static inline A bits(B b) { A a; memcpy(&a, &b, sizeof(A)); return a; }
static int nan16(uint16_t h) { return (h & 0x7fff) > 0x7c00; }
static int nan32(uint32_t f) { return (f & 0x7fffffff) > 0x7f800000; }
// round to nearest even, one case per exponent class, no floating point
static uint16_t ref_f2h(uint32_t f) {
    uint32_t s = f >> 16 & 0x8000, a = f & 0x7fffffff;
    int32_t e = (int32_t) (a >> 23) - 127;
    uint32_t m = (a & 0x7fffff) | 0x800000;
    uint32_t sh = e < -14 ? (uint32_t) (13 + (-14 - e)) : 13;        // discarded bits
    uint32_t tiny = sh > 25;
    sh = tiny ? 25 : sh;
    uint32_t q = m >> sh, rem = m & ((1u << sh) - 1), half_ = 1u << (sh - 1);
    q += (rem > half_) | ((rem == half_) & (q & 1));
    uint32_t r = e < -14 ? q : (uint32_t) ((e + 14) << 10) + q;      // a carry moves into the exponent
    r = tiny ? 0 : r;
    r = (r >= 0x7c00) | (e > 15) ? 0x7c00 : r;
    return (uint16_t) (s | r);
}
static uint32_t ref_h2f(uint16_t h) {
    uint32_t s = (uint32_t) (h & 0x8000) << 16, e = h >> 10 & 31, m = h & 0x3ff;
    uint32_t norm = ((e + 112) << 23) | (m << 13), inf = 0x7f800000 | (m << 13);
    uint32_t p = 0;                                                   // position of the leading bit
    for (uint32_t i = 0; i < 10; ++i) p = (m >> i) & 1 ? i : p;
    uint32_t sub = m ? ((p + 103) << 23) | ((m << (23 - p)) & 0x7fffff) : 0;
    return s | (e == 0 ? sub : e == 31 ? inf : norm);
}
static int same16(uint16_t a, uint16_t b) { return (a == b) | (nan16(a) & nan16(b)); }
static int same32(uint32_t a, uint32_t b) { return (a == b) | (nan32(a) & nan32(b)); }
static void obs16(const char *n, uint16_t h) { sym_observe(n, nan16(h) ? 0x7fffu : h); }

ENTRY t_f2h() { // param: 0 default conversion, 1 software fallback, 2 constructor
    uint32_t f = sym_u32("f");
    int m = (int) sym_param(0);
    uint16_t r = m == 0 ? half::float32_to_float16(bits<float>(f)) : m == 1 ? half::float32_to_float16_fallback(bits<float>(f)) : half(bits<float>(f)).value;
    uint16_t e = ref_f2h(f);
    sym_assert(nan32(f) ? nan16(r) : r == e, "float to half conversion rounds to the nearest value, ties to even");
    obs16("r", r);
    sym_reach("end");
}
ENTRY t_h2f() {
    uint16_t h = sym_u16("h");
    int m = (int) sym_param(0);
    float r = m == 0 ? half::float16_to_float32(h) : m == 1 ? half::float16_to_float32_fallback(h) : (float) half::from_binary(h);
    sym_assert(nan16(h) ? nan32(bits<uint32_t>(r)) : bits<uint32_t>(r) == ref_h2f(h), "half to float conversion is exact");
    sym_observe("r", nan16(h) ? 0 : bits<uint32_t>(r));
    sym_reach("end");
}
ENTRY t_round() { // half -> float -> half is the identity
    uint16_t h = sym_u16("h");
    int m = (int) sym_param(0);
    uint16_t r = m ? half::float32_to_float16_fallback(half::float16_to_float32_fallback(h)) : half((float) half::from_binary(h)).value;
    sym_assert(same16(r, h), "half to float to half is the identity");
    obs16("r", r);
    sym_reach("end");
}
// param: operator
template <typename V> static float asf(V v) { return (float) v; }
// conversions are the subject of t_f2h / t_h2f; here the processor's are used
static float hw_h2f(uint16_t h) { return _mm_cvtss_f32(_mm_cvtph_ps(_mm_cvtsi32_si128((int32_t) h))); }
static uint16_t hw_f2h(float f) { return (uint16_t) _mm_cvtsi128_si32(_mm_cvtps_ph(_mm_set_ss(f), _MM_FROUND_CUR_DIRECTION)); }
template <> float asf<half>(half v) { return hw_h2f(v.value); }
template <typename V> static void t_op(int op, half a, V b) {
    float x = asf(a), y = asf(b);
    half r = a; bool c = false, e = false; int kind = op < 8 ? 0 : 1; float z = 0;
    switch (op) {
        case 0: r = a + b; z = x + y; break; case 1: r = a - b; z = x - y; break; case 2: r = a * b; z = x * y; break; case 3: r = a / b; z = x / y; break;
        case 4: r += b; z = x + y; break; case 5: r -= b; z = x - y; break; case 6: r *= b; z = x * y; break; case 7: r /= b; z = x / y; break;
        case 8: c = a == b; e = x == y; break; case 9: c = a != b; e = x != y; break; case 10: c = a < b; e = x < y; break;
        case 11: c = a > b; e = x > y; break; case 12: c = a <= b; e = x <= y; break; case 13: c = a >= b; e = x >= y; break;
    }
    if (kind == 0) { uint32_t zf = bits<uint32_t>(z); sym_assert(nan32(zf) ? nan16(r.value) : r.value == hw_f2h(z), "half arithmetic is the correctly rounded single precision result"); obs16("r", r.value); }
    else { sym_assert(c == e, "half comparisons agree with the comparison of the values"); sym_observe("c", c); }
}
ENTRY t_arith() { // params: operator, type of the right operand
    half a = half::from_binary(sym_u16("a"));
    int op = (int) sym_param(0);
    switch (sym_param(1)) {
        case 0: t_op(op, a, half::from_binary(sym_u16("b"))); break;
        case 1: t_op(op, a, bits<float>(sym_u32("b"))); break;
        case 2: t_op(op, a, (int) sym_u32("b")); break;
        case 3: t_op(op, a, sym_u32("b")); break;
        case 4: t_op(op, a, (int64_t) sym_u64("b")); break;
        case 5: t_op(op, a, bits<double>(sym_u64("b"))); break;
        case 6: t_op(op, a, (int8_t) sym_u8("b")); break;
        case 7: t_op(op, a, (uint16_t) sym_u16("b")); break;
        case 8: t_op(op, a, (sym_u8("b") & 1) != 0); break;
        case 9: t_op(op, a, sym_u64("b")); break;
    }
    sym_reach("end");
}
template <typename V> static void t_conv(V v) {
    uint32_t zf = bits<uint32_t>((float) v);
    half h(v);
    sym_assert(nan32(zf) ? nan16(h.value) : h.value == ref_f2h(zf), "construction from a number rounds its single precision value");
    obs16("h", h.value);
}
ENTRY t_misc() {
    switch (sym_param(0)) {
        case 0: { uint16_t h = sym_u16("h"); sym_assert((-half::from_binary(h)).value == (uint16_t) (h ^ 0x8000), "negation flips the sign bit only"); break; }
        case 1: t_conv((int) sym_u32("b")); break; case 2: t_conv(sym_u32("b")); break; case 3: t_conv((int64_t) sym_u64("b")); break;
        case 4: t_conv(sym_u64("b")); break; case 5: t_conv(bits<double>(sym_u64("b"))); break; case 6: t_conv((int8_t) sym_u8("b")); break;
        case 7: t_conv(sym_u16("b")); break; case 8: t_conv((sym_u8("b") & 1) != 0); break;
        case 9: { uint16_t h = sym_u16("h"); half a = half::from_binary(h), b(a), c; c = b; sym_assert(a.value == h && b.value == h && c.value == h && sizeof(half) == 2, "copies and the binary constructor preserve the bits"); break; }
        case 10: {
            using C = drjit::detail::constants<half>;
            const double pi = 3.14159265358979323846, e = 2.71828182845904523536, l2 = 0.693147180559945309417, s2 = 1.41421356237309504880, sp = 1.77245385090551602730;
            half v[] = { C::E, C::LogTwo, C::InvLogTwo, C::Pi, C::InvPi, C::SqrtPi, C::InvSqrtPi, C::TwoPi, C::InvTwoPi, C::SqrtTwoPi, C::InvSqrtTwoPi, C::FourPi, C::InvFourPi, C::SqrtFourPi, C::InvSqrtFourPi, C::SqrtTwo, C::InvSqrtTwo };
            double d[] = { e, l2, 1 / l2, pi, 1 / pi, sp, 1 / sp, 2 * pi, .5 / pi, s2 * sp, 1 / (s2 * sp), 4 * pi, .25 / pi, 2 * sp, .5 / sp, s2, 1 / s2 };
            for (int i = 0; i < 17; ++i) sym_assert(v[i].value == ref_f2h(bits<uint32_t>((float) d[i])), "mathematical constants are correctly rounded");
            sym_assert(C::Infinity.value == 0x7c00 && nan16(C::NaN.value) && C::OneMinusEpsilon.value == 0x3bff, "special constants");
            break; }
    }
    sym_reach("end");
}
