// Elementwise operations: kernels, literal folding, algebraic simplification
// and casts against an independent reference semantics.
#include "h_util.h"

// ------------------------------------------------------ reference semantics
template <typename T> struct Ref {
    using U = uint_of<T>;
    static constexpr int W = sizeof(T) * 8;
    static constexpr bool S = std::is_signed_v<T>;
    static U u(T v) { return bits<U>(v); }
    static T t(U v) { return bits<T>(v); }
    static T popc(T v) { U x = u(v), r = 0; for (int i = 0; i < W; ++i) r = (U) (r + ((x >> i) & 1)); return t(r); }
    static T clz(T v) { U x = u(v), r = W; for (int i = 0; i < W; ++i) r = ((x >> i) & 1) ? (U) (W - 1 - i) : r; return t(r); }
    static T ctz(T v) { U x = u(v), r = W; for (int i = W - 1; i >= 0; --i) r = ((x >> i) & 1) ? (U) i : r; return t(r); }
    static T brev(T v) { U x = u(v), r = 0; for (int i = 0; i < W; ++i) r = (U) (r | (U) ((U) ((x >> i) & 1) << (W - 1 - i))); return t(r); }
    static T mulhi(T a, T b) {
        if constexpr (W == 64) { if constexpr (S) return (T) (((__int128) a * (__int128) b) >> 64); else return (T) (((unsigned __int128) a * (unsigned __int128) b) >> 64); }
        else if constexpr (S) return (T) (((int64_t) a * (int64_t) b) >> W);
        else return (T) (((uint64_t) a * (uint64_t) b) >> W);
    }
};
template <typename T> static T ref_sqrt(T v) { return __builtin_elementwise_sqrt(v); }
template <typename T> static T ref_fma(T a, T b, T c) {
    if constexpr (std::is_same_v<T, f16>) return (f16) __builtin_fmaf((float) a, (float) b, (float) c); else return __builtin_elementwise_fma(a, b, c);
}
template <typename T> static T fabs_(T v) { using U = uint_of<T>; return bits<T>((U) (bits<U>(v) & (U) (((U) -1) >> 1))); }
template <typename T> static T fneg_(T v) { using U = uint_of<T>; return bits<T>((U) (bits<U>(v) ^ (U) ~(U) (((U) -1) >> 1))); }

static uint32_t make_op(JitOp op, const uint32_t *d, int api) {
    if (api == 1) return jit_var_op(op, d);
    switch (op) {
        case JitOp::Neg: return jit_var_neg(d[0]); case JitOp::Not: return jit_var_not(d[0]); case JitOp::Sqrt: return jit_var_sqrt(d[0]);
        case JitOp::Abs: return jit_var_abs(d[0]); case JitOp::Add: return jit_var_add(d[0], d[1]); case JitOp::Sub: return jit_var_sub(d[0], d[1]);
        case JitOp::Mul: return jit_var_mul(d[0], d[1]); case JitOp::Div: return jit_var_div(d[0], d[1]); case JitOp::Mod: return jit_var_mod(d[0], d[1]);
        case JitOp::MulHi: return jit_var_mul_hi(d[0], d[1]); case JitOp::MulWide: return jit_var_mul_wide(d[0], d[1]); case JitOp::Fma: return jit_var_fma(d[0], d[1], d[2]);
        case JitOp::Min: return jit_var_min(d[0], d[1]); case JitOp::Max: return jit_var_max(d[0], d[1]); case JitOp::FMin: return jit_var_fmin(d[0], d[1]);
        case JitOp::FMax: return jit_var_fmax(d[0], d[1]); case JitOp::Copysign: return jit_var_copysign(d[0], d[1]);
        case JitOp::Ceil: return jit_var_ceil(d[0]); case JitOp::Floor: return jit_var_floor(d[0]); case JitOp::Round: return jit_var_round(d[0]); case JitOp::Trunc: return jit_var_trunc(d[0]);
        case JitOp::Eq: return jit_var_eq(d[0], d[1]); case JitOp::Neq: return jit_var_neq(d[0], d[1]); case JitOp::Lt: return jit_var_lt(d[0], d[1]);
        case JitOp::Le: return jit_var_le(d[0], d[1]); case JitOp::Gt: return jit_var_gt(d[0], d[1]); case JitOp::Ge: return jit_var_ge(d[0], d[1]);
        case JitOp::Select: return jit_var_select(d[0], d[1], d[2]); case JitOp::Popc: return jit_var_popc(d[0]); case JitOp::Clz: return jit_var_clz(d[0]);
        case JitOp::Ctz: return jit_var_ctz(d[0]); case JitOp::Brev: return jit_var_brev(d[0]); case JitOp::And: return jit_var_and(d[0], d[1]);
        case JitOp::Or: return jit_var_or(d[0], d[1]); case JitOp::Xor: return jit_var_xor(d[0], d[1]); case JitOp::Shl: return jit_var_shl(d[0], d[1]);
        case JitOp::Shr: return jit_var_shr(d[0], d[1]); case JitOp::Rcp: return jit_var_rcp(d[0]); case JitOp::Rsqrt: return jit_var_rsqrt(d[0]);
        default: sym_assert(0, "harness: unknown operation"); return 0;
    }
}
static int arity(JitOp op) {
    switch (op) {
        case JitOp::Fma: case JitOp::Select: return 3;
        case JitOp::Neg: case JitOp::Not: case JitOp::Sqrt: case JitOp::Abs: case JitOp::Ceil: case JitOp::Floor: case JitOp::Round: case JitOp::Trunc:
        case JitOp::Popc: case JitOp::Clz: case JitOp::Ctz: case JitOp::Brev: case JitOp::Rcp: case JitOp::Rsqrt: return 1;
        default: return 2;
    }
}
static bool is_cmp(JitOp op) { return op >= JitOp::Eq && op <= JitOp::Ge; }
/// Inputs outside the domain of the operation (documented as undefined)
template <typename T> static int defined(JitOp op, T a, T b, bool fold) {
    if constexpr (!VT<T>::flt && !std::is_same_v<T, bool>) {
        using U = uint_of<T>;
        if (op == JitOp::Div || op == JitOp::Mod) {
            int ok = b != 0;
            if (std::is_signed_v<T>) ok &= !((a == std::numeric_limits<T>::min()) & (b == (T) -1)) | (fold & (op == JitOp::Mod));
            return ok;
        }
        if (op == JitOp::Shl || op == JitOp::Shr) return (U) b < (U) (sizeof(T) * 8);
    }
    return 1;
}
/// Checks one element of a (non-comparison) result
template <typename T> static void check1(JitOp op, T r, T a, T b, T c, bool fold, const char *msg) {
    if constexpr (std::is_same_v<T, bool>) {
        bool e = false;
        switch (op) { case JitOp::Not: e = !a; break; case JitOp::And: e = a & b; break; case JitOp::Or: e = a | b; break; case JitOp::Xor: e = a ^ b; break; default: sym_assert(0, "harness: op"); }
        sym_assert(r == e, msg);
    } else if constexpr (!VT<T>::flt) {
        using U = uint_of<T>; using R = Ref<T>;
        constexpr bool S = std::is_signed_v<T>;
        U x = R::u(a), y = R::u(b), z = R::u(c); T e = 0;
        switch (op) {
            case JitOp::Neg: e = R::t((U) (0 - x)); break; case JitOp::Not: e = R::t((U) ~x); break;
            case JitOp::Abs: e = S && a < 0 ? R::t((U) (0 - x)) : a; break;
            case JitOp::Add: e = R::t((U) (x + y)); break; case JitOp::Sub: e = R::t((U) (x - y)); break;
            case JitOp::Mul: e = R::t((U) ((uint64_t) x * (uint64_t) y)); break;
            case JitOp::Div: e = (T) (a / b); break;
            case JitOp::Mod: if constexpr (sizeof(T) < 4) e = (T) (a % b); else e = (S && b == (T) -1) ? (T) 0 : (T) (a % b); break;
            case JitOp::MulHi: e = R::mulhi(a, b); break;
            case JitOp::Fma: e = R::t((U) ((uint64_t) x * (uint64_t) y + z)); break;
            case JitOp::Min: case JitOp::FMin: e = a < b ? a : b; break; case JitOp::Max: case JitOp::FMax: e = a > b ? a : b; break;
            case JitOp::Copysign: { U m = S && a < 0 ? (U) (0 - x) : x; e = R::t(S && b < 0 ? (U) (0 - m) : m); break; }
            case JitOp::Popc: e = R::popc(a); break; case JitOp::Clz: e = R::clz(a); break; case JitOp::Ctz: e = R::ctz(a); break; case JitOp::Brev: e = R::brev(a); break;
            case JitOp::And: e = R::t((U) (x & y)); break; case JitOp::Or: e = R::t((U) (x | y)); break; case JitOp::Xor: e = R::t((U) (x ^ y)); break;
            case JitOp::Shl: e = R::t((U) ((uint64_t) x << (y & (R::W - 1)))); break; case JitOp::Shr: e = (T) (a >> (y & (R::W - 1))); break;
            default: sym_assert(0, "harness: op");
        }
        sym_assert(r == e, msg);
    } else {
        using U = uint_of<T>;
        U sgn = (U) ~(U) (((U) -1) >> 1);
        switch (op) {
            case JitOp::Neg: sym_assert(same(r, fneg_(a)), msg); break;
            case JitOp::Abs: sym_assert(same(r, fabs_(a)), msg); break;
            case JitOp::Sqrt: sym_assert(same(r, ref_sqrt(a)), msg); break;
            case JitOp::Add: sym_assert(same(r, (T) (a + b)), msg); break; case JitOp::Sub: sym_assert(same(r, (T) (a - b)), msg); break;
            case JitOp::Mul: sym_assert(same(r, (T) (a * b)), msg); break; case JitOp::Div: sym_assert(same(r, (T) (a / b)), msg); break;
            case JitOp::Fma: sym_assert(same(r, ref_fma(a, b, c)), msg); break;
            case JitOp::Min: case JitOp::Max: case JitOp::FMin: case JitOp::FMax: {
                bool mn = op == JitOp::Min || op == JitOp::FMin, prop = op == JitOp::Min || op == JitOp::Max;
                T e = mn ? (a < b ? a : b) : (a > b ? a : b);
                int num = !is_nan(a) & !is_nan(b);
                int v = (r == e) & num;                                    // +0 / -0 may be exchanged
                int n = prop ? ((is_nan(a) | is_nan(b)) & is_nan(r))
                             : ((is_nan(a) & is_nan(b) & is_nan(r)) | (is_nan(a) & !is_nan(b) & (r == b)) | (!is_nan(a) & is_nan(b) & (r == a)));
                sym_assert(v | n, msg); break;
            }
            case JitOp::Copysign: sym_assert(same(r, bits<T>((U) ((bits<U>(a) & (U) ~sgn) | (bits<U>(b) & sgn)))), msg); break;
            case JitOp::Ceil: sym_assert(same(r, __builtin_elementwise_ceil(a)), msg); break; case JitOp::Floor: sym_assert(same(r, __builtin_elementwise_floor(a)), msg); break;
            case JitOp::Trunc: sym_assert(same(r, __builtin_elementwise_trunc(a)), msg); break; case JitOp::Round: sym_assert(same(r, __builtin_elementwise_rint(a)), msg); break;
            case JitOp::Rcp: sym_assert(same(r, (T) ((T) 1 / a)), msg); break;
            case JitOp::Rsqrt: { T e1 = ref_sqrt((T) ((T) 1 / a)), e2 = (T) ((T) 1 / ref_sqrt(a)); if constexpr (sizeof(T) == 2) { // may also be evaluated in a wider type and rounded once
                    T e3 = (T) (1.f / ref_sqrt((float) a)), e4 = (T) (float) (1.0 / ref_sqrt((double) a));
                    sym_assert(same(r, e1) | same(r, e2) | same(r, e3) | same(r, e4), msg);
                } else sym_assert(same(r, e1) | same(r, e2), msg);
                break; }
            case JitOp::Not: sym_assert(bits<U>(r) == (U) ~bits<U>(a), msg); break;
            case JitOp::And: sym_assert(bits<U>(r) == (U) (bits<U>(a) & bits<U>(b)), msg); break; case JitOp::Or: sym_assert(bits<U>(r) == (U) (bits<U>(a) | bits<U>(b)), msg); break;
            case JitOp::Xor: sym_assert(bits<U>(r) == (U) (bits<U>(a) ^ bits<U>(b)), msg); break;
            default: sym_assert(0, "harness: op");
        }
    }
}
template <typename T> static bool cmp1(JitOp op, T a, T b) {
    switch (op) { case JitOp::Eq: return a == b; case JitOp::Neq: return a != b; case JitOp::Lt: return a < b; case JitOp::Le: return a <= b; case JitOp::Gt: return a > b; default: return a >= b; }
}
template <typename T> static void verify(JitOp op, uint32_t r, const T (*in)[16], const bool *m, const int *sz, int n, bool fold, const char *msg) {
    auto at = [&](int k, int i) { return in[k][sz[k] == 1 ? 0 : i]; };
    if (op == JitOp::Select) {
        T o[16]; fetch(r, o, n);
        for (int i = 0; i < n; ++i) { sym_assert(raw(o[i]) == raw(m[sz[0] == 1 ? 0 : i] ? at(1, i) : at(2, i)), msg); sym_observe("r", raw(o[i])); }
    } else if (is_cmp(op)) {
        bool o[16]; fetch(r, o, n);
        for (int i = 0; i < n; ++i) { sym_assert(o[i] == cmp1(op, at(0, i), at(1, i)), msg); sym_observe("r", o[i]); }
    } else if (op == JitOp::MulWide) {
        if constexpr (sizeof(T) == 4 && !VT<T>::flt) {
            using Wd = std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>;
            Wd o[16]; fetch(r, o, n);
            for (int i = 0; i < n; ++i) { sym_assert(o[i] == (Wd) at(0, i) * (Wd) at(1, i), msg); sym_observe("r", raw(o[i])); }
        }
    } else {
        T o[16]; fetch(r, o, n);
        for (int i = 0; i < n; ++i) {
            check1<T>(op, o[i], at(0, i), at(1, i), at(2, i), fold, msg);
            observe("r", o[i]);
        }
    }
}
// ------------------------------------------------- literal / opaque mixtures
template <typename T> static T special(const char *name) {
    if constexpr (std::is_same_v<T, bool>) return sym_choose(name, 2) != 0;
    else if constexpr (VT<T>::flt) {
        constexpr bool H = sizeof(T) == 2, D = sizeof(T) == 8;
        const double big = H ? 65504. : D ? 1.7976931348623157e308 : 3.4028234663852886e38;
        const double v[14] = { 0., -0., 1., -1., 2., .5, -4., 3., .1, big, -big, __builtin_inf(), -__builtin_inf(), __builtin_nan("") };
        return (T) v[sym_choose(name, 14)];
    } else {
        constexpr int W = sizeof(T) * 8;
        using U = uint_of<T>;
        const U v[15] = { 0, 1, 2, 3, 7, 8, 10, (U) -1, (U) -2, (U) -8, (U) ((U) 1 << (W - 1)), (U) (((U) 1 << (W - 1)) - 1), (U) (((U) 1 << (W - 1)) + 1), (U) ((U) 1 << (W - 2)), (U) (W - 1) };
        return bits<T>(v[sym_choose(name, 15)]);
    }
}
/// As check1(), with the documented freedoms of simplified float expressions
template <typename T> static void check_mix(JitOp op, T r, T a, T b, T c, int lm, const char *msg) {
    if constexpr (VT<T>::flt) {
        T e;
        switch (op) {
            case JitOp::Add: e = (T) (a + b); break; case JitOp::Sub: e = (T) (a - b); break; case JitOp::Mul: e = (T) (a * b); break;
            case JitOp::Fma: // x*1+c, 1*x+c, x*y+0 and 0*0+c have an equivalent simpler form
                e = ((lm >> 2) & 1) && c == 0 ? (T) (a * b) : ((lm >> 0) & 1) && a == 1 ? (T) (b + c) : ((lm >> 1) & 1) && b == 1 ? (T) (a + c) : ref_fma(a, b, c); break;
            case JitOp::Div: e = (T) (a / b); if ((lm >> 1) & 1) { T q = (T) (a * (T) ((T) 1 / b)); sym_assert(same(r, e) | same(r, q), msg); return; } break;
            default: check1<T>(op, r, a, b, c, false, msg); return;
        }
        sym_assert(same(r, e) | ((r == 0) & (e == 0)), msg); // the sign of a zero is not preserved
    } else check1<T>(op, r, a, b, c, false, msg);
}
// params: op, type, literal mask, alias mask, opaque size, literal size, api
template <typename T> static void run_mix() {
    JitOp op = (JitOp) sym_param(0);
    int k = arity(op), lm = (int) sym_param(2), alias = (int) sym_param(3), os = (int) sym_param(4), ls = (int) sym_param(5), api = (int) sym_param(6), n = 1;
    T in[3][16]; bool m[16]; int sz[3] = { 1, 1, 1 };
    memset(in, 0, sizeof(in)); memset(m, 0, sizeof(m));
    uint32_t d[3] = {};
    for (int i = 0; i < k; ++i) { sz[i] = (lm >> i) & 1 ? ls : os; if (sz[i] > n) n = sz[i]; }
    for (int i = 0; i < k; ++i) {
        bool L = (lm >> i) & 1, M = op == JitOp::Select && i == 0;
        const char *nm = i == 0 ? "a" : i == 1 ? "b" : "c", *ln = i == 0 ? "la" : i == 1 ? "lb" : "lc";
        if (!M && ((alias >> i) & 1) && i > (op == JitOp::Select ? 1 : 0)) { // the same variable as the previous operand
            memcpy(in[i], in[i - 1], sizeof(in[i])); d[i] = d[i - 1]; sz[i] = sz[i - 1]; jit_var_inc_ref(d[i]); continue;
        }
        if (M) { if (L) { m[0] = sym_choose("lm", 2) != 0; for (int j = 1; j < sz[i]; ++j) m[j] = m[0]; } else for (int j = 0; j < sz[i]; ++j) m[j] = sym<bool>("m"); }
        else if (L) { in[i][0] = special<T>(ln); for (int j = 1; j < sz[i]; ++j) in[i][j] = in[i][0]; }
        else for (int j = 0; j < sz[i]; ++j) in[i][j] = sym<T>(nm);
        if (M) d[i] = L ? lit(m[0], sz[i]) : arr(m, sz[i]);
        else d[i] = L ? lit(in[i][0], sz[i]) : arr(in[i], sz[i]);
    }
    auto at = [&](int q, int i) { return in[q][sz[q] == 1 ? 0 : i]; };
    if constexpr (VT<T>::flt) {
        jit_set_flag(JitFlag::FastMath, (int) sym_param(7));
        if (sym_param(7)) // permits x * 0 == 0: finite operands
            for (int q = 0; q < k; ++q) for (int j = 0; j < sz[q]; ++j) { T z = (T) (in[q][j] - in[q][j]); sym_assume(z == 0); }
    }
    for (int j = 0; j < n; ++j) sym_assume(defined<T>(op, at(0, j), at(1, j), false));
    uint32_t r = make_op(op, d, api);
    const char *msg = "a simplified expression has the value of the original one";
    if (op == JitOp::Select || is_cmp(op) || op == JitOp::MulWide) verify<T>(op, r, in, m, sz, n, false, msg);
    else {
        T o[16]; fetch(r, o, n);
        for (int i = 0; i < n; ++i) {
            check_mix<T>(op, o[i], at(0, i), at(1, i), at(2, i), lm, msg);
            if (!VT<T>::flt) observe("r", o[i]);
        }
    }
    drop(r); for (int i = 0; i < k; ++i) drop(d[i]);
    sym_reach("end");
}
ENTRY t_mix() { DISPATCH_ALL(sym_param(1), run_mix<T>()); }
// params: op, type, size0, size1, size2, api. Size 0: symbolic literal of size 1.
template <typename T> static void run_op() {
    JitOp op = (JitOp) sym_param(0);
    int k = arity(op), n = 1, api = (int) sym_param(5);
    T in[3][16]; bool m[16]; int sz[3] = { 1, 1, 1 }; bool islit[3] = {};
    memset(in, 0, sizeof(in)); memset(m, 0, sizeof(m));
    uint32_t d[3] = {};
    bool fold = true;
    // common subexpressions are the subject of another check; with symbolic
    // literals, looking them up would only split cases
    jit_set_flag(JitFlag::ValueNumbering, 0);
    for (int i = 0; i < k; ++i) { int s = (int) sym_param(2 + i); islit[i] = s == 0; fold &= islit[i]; sz[i] = s == 0 ? 1 : s; if (sz[i] > n) n = sz[i]; }
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < sz[i]; ++j)
            if (op == JitOp::Select && i == 0) m[j] = sym<bool>("m"); else in[i][j] = sym<T>(i == 0 ? "a" : i == 1 ? "b" : "c");
    if (op == JitOp::Copysign && fold && sizeof(T) == 2) sym_assume(!is_nan(in[1][0])); // the sign of a NaN is not kept by half/float conversions
    for (int j = 0; j < n; ++j) sym_assume(defined<T>(op, in[0][sz[0] == 1 ? 0 : j], in[1][sz[1] == 1 ? 0 : j], fold));
    for (int i = 0; i < k; ++i) {
        if (op == JitOp::Select && i == 0) d[i] = islit[i] ? lit(m[0]) : arr(m, sz[i]);
        else d[i] = islit[i] ? lit(in[i][0]) : arr(in[i], sz[i]);
    }
    uint32_t r = make_op(op, d, api);
    verify<T>(op, r, in, m, sz, n, fold, fold ? "folding literals gives the value of the operation" : "the kernel computes the operation elementwise");
    drop(r); for (int i = 0; i < k; ++i) drop(d[i]);
    sym_reach("end");
}
ENTRY t_op() { DISPATCH_ALL(sym_param(1), run_op<T>()); }
