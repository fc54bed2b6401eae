// Indirect memory access: gathers, packet gathers, scatters, scatter-reductions,
// scatter_inc / exch / cas against sequential references.
#include "h_util.h"
template <typename T> static T zero() { return (T) 0; }
template <typename T> static T addc(T a, int k) { // harmless derived value
    if constexpr (std::is_same_v<T, bool>) return k & 1 ? !a : a;
    else if constexpr (VT<T>::flt) { using U = uint_of<T>; return k & 1 ? bits<T>((U) (bits<U>(a) ^ (U) ~(U) (((U) -1) >> 1))) : a; }
    else { using U = uint_of<T>; return (T) (U) ((U) a ^ (U) -k); }
}
template <typename T> static uint32_t addv(uint32_t v, int k) { // the same as an expression
    if constexpr (std::is_same_v<T, bool>) return k & 1 ? jit_var_not(v) : jit_var_inc_ref(v);
    else if constexpr (VT<T>::flt) return k & 1 ? jit_var_neg(v) : jit_var_inc_ref(v);
    else { using U = uint_of<T>; uint32_t l = lit<T>((T) (U) -k), r = jit_var_xor(v, l); drop(l); return r; }
}
// ---- index arrays: fills ref[], lanes that 'act' are inside [0, n) ----------
enum { I_U32, I_I32, I_U8, I_I64, I_U64, I_COUNTER, I_LIT, I_LITN, I_EXPR, I_I16, I_COUNT };
template <typename T> static uint32_t idx_arr(uint64_t *ref, const uint8_t *act, size_t cnt, uint64_t n) {
    T x[8]; for (size_t i = 0; i < cnt; ++i) { x[i] = sym<T>("idx"); ref[i] = (uint64_t) (std::is_signed_v<T> ? (int64_t) x[i] : (int64_t) x[i]); sym_assume(!act[i] | (ref[i] < n)); }
    return arr(x, cnt);
}
static uint32_t make_index(int form, uint64_t *ref, const uint8_t *act, size_t cnt, uint64_t n) {
    switch (form) {
        case I_U32: return idx_arr<uint32_t>(ref, act, cnt, n);
        case I_I32: return idx_arr<int32_t>(ref, act, cnt, n);
        case I_U8:  return idx_arr<uint8_t>(ref, act, cnt, n);
        case I_I16: return idx_arr<int16_t>(ref, act, cnt, n);
        case I_I64: return idx_arr<int64_t>(ref, act, cnt, n);
        case I_U64: return idx_arr<uint64_t>(ref, act, cnt, n);
        case I_COUNTER: for (size_t i = 0; i < cnt; ++i) ref[i] = i; return counter(cnt);
        case I_LIT: case I_LITN: { uint32_t v = sym_choose("lidx", (uint32_t) n); for (size_t i = 0; i < cnt; ++i) ref[i] = v; return lit<uint32_t>(v, form == I_LIT ? 1 : cnt); }
        default: { // n - 1 - x
            uint32_t v = idx_arr<uint32_t>(ref, act, cnt, n), l = lit<uint32_t>((uint32_t) n - 1), r = jit_var_sub(l, v);
            for (size_t i = 0; i < cnt; ++i) ref[i] = n - 1 - ref[i];
            drop(l); drop(v); return r;
        }
    }
}
// ---- masks -----------------------------------------------------------------
enum { M_TRUE, M_FALSE, M_ARR, M_ONE, M_EXPR, M_COUNT };
static uint32_t make_mask(int form, uint8_t *ref, size_t cnt) {
    switch (form) {
        case M_TRUE: case M_FALSE: for (size_t i = 0; i < cnt; ++i) ref[i] = form == M_TRUE; return lit<bool>(form == M_TRUE);
        case M_ARR: { bool b[8]; for (size_t i = 0; i < cnt; ++i) { b[i] = sym<bool>("mask"); ref[i] = b[i]; } return arr(b, cnt); }
        case M_ONE: { bool b = sym<bool>("mask"); for (size_t i = 0; i < cnt; ++i) ref[i] = b; return arr(&b, 1); }
        default: { uint8_t x[8]; for (size_t i = 0; i < cnt; ++i) { x[i] = sym_u8("m8"); ref[i] = x[i] < 100; } uint32_t v = arr(x, cnt), l = lit<uint8_t>(100), r = jit_var_lt(v, l); drop(v); drop(l); return r; }
    }
}
// ---- sources ---------------------------------------------------------------
enum { S_ARR, S_LITN, S_LIT, S_CEXPR, S_AEXPR, S_ONE, S_GATHER, S_DIRTY, S_MAP, S_LOADED, S_COUNT };
static int few_symbols = 0; // float arrays: 1: only the first element is symbolic, 2: none
template <typename T> static T fresh(const char *name, size_t i) { if (VT<T>::flt && (few_symbols == 2 || (few_symbols && i))) return (T) ((int) (3 * i) - 4); return sym<T>(name); }
template <typename T> static uint32_t make_source(int form, T *ref, size_t n) {
    switch (form) {
        case S_LITN: case S_LIT: { T v = std::is_same_v<T, bool> ? (T) 1 : (T) 7; for (size_t i = 0; i < n; ++i) ref[i] = v; return lit<T>(v, form == S_LIT ? 1 : n); }
        case S_ONE: { T v = sym<T>("src"); for (size_t i = 0; i < n; ++i) ref[i] = v; return arr(&v, 1); }
        case S_CEXPR: { // (type) (counter + 1), or counter < 2 for booleans
            uint32_t c = counter(n), r;
            if (std::is_same_v<T, bool>) { uint32_t l = lit<uint32_t>(2); r = jit_var_lt(c, l); drop(l); for (size_t i = 0; i < n; ++i) ref[i] = (T) (i < 2); }
            else { uint32_t l = lit<uint32_t>(1), s = jit_var_add(c, l); r = jit_var_cast(s, VT<T>::v, 0); drop(l); drop(s); for (size_t i = 0; i < n; ++i) ref[i] = (T) (i + 1); }
            drop(c); return r;
        }
        default: break;
    }
    for (size_t i = 0; i < n; ++i) ref[i] = fresh<T>("src", i);
    switch (form) {
        case S_AEXPR: { uint32_t v = arr(ref, n), r = addv<T>(v, 3); drop(v); for (size_t i = 0; i < n; ++i) ref[i] = addc(ref[i], 3); return r; }
        case S_GATHER: { // unevaluated reversal
            uint32_t v = arr(ref, n), r = jit_var_reverse(v); drop(v); for (size_t i = 0; i < n / 2; ++i) { T t = ref[i]; ref[i] = ref[n - 1 - i]; ref[n - 1 - i] = t; } return r;
        }
        case S_DIRTY: { // pending scatter to element 1
            T w = fresh<T>("w", 1); uint32_t v = arr(ref, n), x = arr(&w, 1), i = lit<uint32_t>(1), m = lit<bool>(true), r = jit_var_scatter(v, x, i, m, ReduceOp::Identity, ReduceMode::Auto);
            drop(v); drop(x); drop(i); drop(m); ref[1] = w; return r;
        }
        case S_MAP: { static uint8_t buf[256] __attribute__((aligned(16))); memcpy(buf + sizeof(T), ref, n * sizeof(T)); return jit_var_mem_map(BK, VT<T>::v, buf + sizeof(T), n, 0); }
        case S_LOADED: { uint32_t v = arr(ref, n), l = lit<bool>(true), r = std::is_same_v<T, bool> ? jit_var_xor(v, l) : addv<T>(v, 1); drop(v); drop(l); jit_var_eval(r); for (size_t i = 0; i < n; ++i) ref[i] = addc(ref[i], 1); return r; }
        default: return arr(ref, n);
    }
}
template <typename T> static T pick_(const T *p, size_t n, uint64_t i) { T r = p[0]; for (size_t k = 1; k < n; ++k) r = i == k ? p[k] : r; return r; }
// params: type, source form, index form, mask form, lanes
template <typename T> static void gather() {
    const size_t N = 5; size_t n = (size_t) sym_param(4);
    int sf = (int) sym_param(1), xf = (int) sym_param(2), mf = (int) sym_param(3);
    T src[N]; uint64_t idx[8]; uint8_t mask[8];
    uint32_t s = make_source(sf, src, N), m = make_mask(mf, mask, n), x = make_index(xf, idx, mask, n, N);
    uint32_t r = jit_var_gather(s, x, m);
    size_t on = xf == I_LIT && (mf < M_ARR || mf == M_ONE) ? 1 : n;
    T o[8]; fetch(r, o, on);
    for (size_t i = 0; i < on; ++i) {
        T e = mask[i] ? pick_(src, N, idx[i]) : zero<T>();
        sym_assert(same(o[i], e), "a gather returns the addressed element, or zero when masked"); observe("o", o[i]);
    }
    T back[N]; if (sf != S_LIT && sf != S_ONE) { fetch(s, back, N); for (size_t i = 0; i < N; ++i) sym_assert(same(back[i], src[i]), "a gather does not modify its source"); }
    drop(r); drop(m); drop(x); drop(s);
    sym_reach("end");
}
ENTRY t_gather() { DISPATCH_ALL(sym_param(0), gather<T>()); }
// params: type, source form, packet size, mask form, flag packet ops, index form
template <typename T> static void gpacket() {
    size_t n = 3, k = (size_t) sym_param(2), N = 3 * k; int sf = (int) sym_param(1);
    T src[24]; uint64_t idx[8]; uint8_t mask[8];
    jit_set_flag(JitFlag::PacketOps, (int) sym_param(4));
    uint32_t s = make_source(sf, src, N), m = make_mask((int) sym_param(3), mask, n), x = make_index((int) sym_param(5), idx, mask, n, 3), out[8];
    jit_var_gather_packet(k, s, x, m, out);
    for (size_t j = 0; j < k; ++j) jit_var_schedule(out[j]);
    if (sym_param(1) != S_CEXPR) jit_eval(); // otherwise one kernel per component
    for (size_t j = 0; j < k; ++j) {
        T o[8]; fetch(out[j], o, n);
        for (size_t i = 0; i < n; ++i) {
            T e = src[j]; for (size_t q = 1; q < 3; ++q) e = idx[i] == q ? src[q * k + j] : e;
            e = mask[i] ? e : zero<T>();
            sym_assert(same(o[i], e), "a packet gather returns the addressed elements in order"); observe("o", o[i]);
        }
    }
    for (size_t j = 0; j < k; ++j) drop(out[j]);
    drop(m); drop(x); drop(s); sym_reach("end");
}
ENTRY t_gpacket() { DISPATCH_ALL(sym_param(0), gpacket<T>()); }
// ---- scatter -----------------------------------------------------------------
enum { T_ARR, T_SHARED, T_LIT, T_EXPR, T_ONE, T_COUNTER, T_USED, T_DIRTY, T_COUNT };
template <typename T> struct Target { T ref[12]; size_t n; uint32_t v, other = 0, expr = 0; T expr_ref[12]; };
template <typename T> static void make_target(int form, Target<T> &t, size_t n) {
    t.n = form == T_ONE ? 1 : n;
    switch (form) {
        case T_LIT: { T v = std::is_same_v<T, bool> ? (T) 1 : (T) 7; for (size_t i = 0; i < n; ++i) t.ref[i] = v; t.v = lit<T>(v, n); return; }
        case T_EXPR: t.v = make_source(S_AEXPR, t.ref, n); return;
        case T_COUNTER: t.v = make_source(S_CEXPR, t.ref, n); return;
        case T_DIRTY: t.v = make_source(S_DIRTY, t.ref, n); return;
        default: break;
    }
    for (size_t i = 0; i < t.n; ++i) t.ref[i] = fresh<T>("tgt", i);
    t.v = arr(t.ref, t.n);
    if (form == T_SHARED) t.other = jit_var_inc_ref(t.v);
    if (form == T_USED) { t.expr = addv<T>(t.v, 1); for (size_t i = 0; i < t.n; ++i) t.expr_ref[i] = addc(t.ref[i], 1); }
}
template <typename T> static void check_target(Target<T> &t, const T *before, uint32_t res, const char *what, const T *after, const uint8_t *loose = nullptr, const T *alt = nullptr) {
    T o[12]; fetch(res, o, t.n);
    for (size_t i = 0; i < t.n; ++i) { sym_assert(same(o[i], after[i]) | (loose && loose[i] && same(o[i], alt[i])), what); observe("t", o[i]); }
    if (t.other) { fetch(t.other, o, t.n); for (size_t i = 0; i < t.n; ++i) sym_assert(same(o[i], before[i]), "another reference to the target keeps the old contents"); drop(t.other); }
    if (t.expr) { fetch(t.expr, o, t.n); for (size_t i = 0; i < t.n; ++i) sym_assert(same(o[i], t.expr_ref[i]), "an expression built before a write uses the old contents"); drop(t.expr); }
}
// params: type, target form, index form, mask form, value form, mode
template <typename T> static void scatter() {
    size_t n = 3, N = 5; int vf = (int) sym_param(4); ReduceMode mode = (ReduceMode) sym_param(5);
    Target<T> t; make_target((int) sym_param(1), t, N); N = t.n;
    uint64_t idx[8]; uint8_t mask[8]; T val[8], before[12], after[12];
    uint32_t m = make_mask((int) sym_param(3), mask, n), x = make_index((int) sym_param(2), idx, mask, n, N), v;
    switch (vf) {
        case 1: { T w = std::is_same_v<T, bool> ? (T) 1 : (T) 7; for (size_t i = 0; i < n; ++i) val[i] = w; v = lit<T>(w); break; }
        case 2: v = make_source(S_AEXPR, val, n); break;
        case 3: { T w = sym<T>("val"); for (size_t i = 0; i < n; ++i) val[i] = w; v = arr(&w, 1); break; }
        default: v = make_source(S_ARR, val, n);
    }
    // conflicting writes have no defined order
    if (N > 1 && sym_param(2) != I_LIT && sym_param(2) != I_LITN) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j]));
    bool scalar = (sym_param(2) == I_LIT) && (vf == 1 || vf == 3) && (sym_param(3) < M_ARR || sym_param(3) == M_ONE);
    for (size_t i = 0; i < N; ++i) before[i] = t.ref[i];
    uint32_t r = jit_var_scatter(t.v, v, x, m, ReduceOp::Identity, mode);
    drop(t.v);
    T o[12]; fetch(r, o, N);
    for (size_t k = 0; k < N; ++k) { // one of the values written there, or the old one
        int ok = 0, any = 0;
        for (size_t i = 0; i < (scalar ? 1 : n); ++i) { int hit = (mask[i] != 0) & (idx[i] == k); any |= hit; ok |= hit & same(o[k], val[i]); }
        sym_assert(ok | (!any & same(o[k], before[k])), "a scatter writes exactly the addressed, unmasked elements"); observe("t", o[k]);
        after[k] = o[k];
    }
    check_target(t, before, r, "the result of a scatter is stable", after);
    T vo[8]; if (vf == 0 || vf == 2) { fetch(v, vo, n); for (size_t i = 0; i < n; ++i) sym_assert(same(vo[i], val[i]), "a scatter does not modify its source"); }
    drop(r); drop(v); drop(x); drop(m); sym_reach("end");
}
ENTRY t_scatter() { DISPATCH_ALL(sym_param(0), scatter<T>()); }
// params: type, target form, packet size, mask form, packet ops flag, mode
template <typename T> static void spacket() {
    size_t n = 3, k = (size_t) sym_param(2), N = 3 * k; jit_set_flag(JitFlag::PacketOps, (int) sym_param(4));
    Target<T> t; static_assert(sizeof(t.ref) >= 12, ""); make_target((int) sym_param(1), t, N);
    uint64_t idx[8]; uint8_t mask[8]; T val[8][8], before[12], after[12]; uint32_t vs[8];
    uint32_t m = make_mask((int) sym_param(3), mask, n), x = make_index(I_U32, idx, mask, n, 3);
    for (size_t j = 0; j < k; ++j) vs[j] = j == 1 ? (val[j][0] = val[j][1] = val[j][2] = (T) 1, lit<T>((T) 1)) : make_source(S_ARR, val[j], n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j]));
    for (size_t i = 0; i < N; ++i) { before[i] = after[i] = t.ref[i]; for (size_t l = 0; l < n; ++l) after[i] = choose<T>((mask[l] != 0) & (idx[l] == i / k), val[i % k][l], after[i]); }
    uint32_t r = jit_var_scatter_packet(k, t.v, vs, x, m, ReduceOp::Identity, (ReduceMode) sym_param(5));
    drop(t.v); for (size_t j = 0; j < k; ++j) drop(vs[j]);
    check_target(t, before, r, "a packet scatter writes exactly the addressed, unmasked elements", after);
    drop(r); drop(x); drop(m); sym_reach("end");
}
ENTRY t_spacket() { DISPATCH_ALL(sym_param(0), spacket<T>()); }
// ---- scatter-reductions ------------------------------------------------------
template <typename T> static T red(ReduceOp op, T a, T b) {
    if constexpr (std::is_same_v<T, bool>) return op == ReduceOp::And ? (a & b) : (a | b);
    else if constexpr (VT<T>::flt) switch (op) {
        case ReduceOp::Add: return (T) (a + b);
        case ReduceOp::Min: return choose((b < a) | is_nan(a), b, a);
        default: return choose((b > a) | is_nan(a), b, a);
    } else { using U = uint_of<T>; switch (op) {
        case ReduceOp::Add: return (T) (U) ((U) a + (U) b); case ReduceOp::And: return (T) (a & b); case ReduceOp::Or: return (T) (a | b);
        case ReduceOp::Min: return b < a ? b : a; default: return b > a ? b : a; } }
}
/// Representative float summands (the addition itself is checked elsewhere)
template <typename T> static T special(uint32_t k) {
    switch (k) { case 0: return (T) 1.5f; case 1: return bits<T>((uint_of<T>) ((uint_of<T>) 1 << (sizeof(T) * 8 - 1))); case 2: return (T) std::numeric_limits<float>::quiet_NaN(); case 3: return (T) std::numeric_limits<float>::infinity(); default: return bits<T>((uint_of<T>) 1); }
}
// params: type, op, mode, target form, mask form, value form, arrangement (0: distinct, 1: all symbolic, 2: constant index)
template <typename T> static void scatter_reduce() {
    size_t n = 3, N = 3; ReduceOp op = (ReduceOp) sym_param(1); ReduceMode mode = (ReduceMode) sym_param(2); int vf = (int) sym_param(5), ar = (int) sym_param(6);
    few_symbols = op == ReduceOp::Add ? 2 : 1;
    if (sym_param(7)) jit_llvm_set_expand_threshold((size_t) (sym_param(7) - 1));
    Target<T> t; make_target((int) sym_param(3), t, N); N = t.n;
    uint64_t idx[8]; uint8_t mask[8]; T val[8], before[12], after[12];
    uint32_t m = make_mask((int) sym_param(4), mask, n), x, v;
    if (ar == 2) { for (size_t i = 0; i < n; ++i) idx[i] = N > 1; x = lit<uint32_t>(N > 1); }
    else if (ar >= 3) { uint32_t c[3] = { 1, 0, ar == 3 ? 1u : 2u }; if (N == 1) c[0] = c[2] = 0; for (size_t i = 0; i < n; ++i) idx[i] = c[i]; x = arr(c, 3); }
    else { x = make_index(I_U32, idx, mask, n, N); if (ar == 0) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j])); }
    switch (vf) {
        case 1: { uint32_t k = sym_choose("lit", 3); T w = k == 0 ? (T) 1 : k == 1 ? (T) 0 : (T) -2; for (size_t i = 0; i < n; ++i) val[i] = w; v = lit<T>(w); break; }
        default:
            for (size_t i = 0; i < n; ++i) {
                // sums of several floats are only exact for small integers; lane 1 is alone
                val[i] = VT<T>::flt && op == ReduceOp::Add ? (i != 1 || N == 1 ? (T) (int) (i * 2 + 1) : special<T>(sym_choose("special", 5))) : sym<T>("val");
                if (VT<T>::flt && op != ReduceOp::Add) sym_assume(!is_nan(val[i]));
            }
            v = arr(val, n);
    }
    if (VT<T>::flt) for (size_t i = 0; i < N; ++i) {
        if (N == 1 && op == ReduceOp::Add) sym_assume(same(t.ref[i], (T) 1));
        if (op != ReduceOp::Add) sym_assume(!is_nan(t.ref[i]));
    }
    bool scalar = vf == 1 && ar == 2 && (sym_param(4) < M_ARR || sym_param(4) == M_ONE);
    for (size_t i = 0; i < N; ++i) {
        before[i] = after[i] = t.ref[i];
        for (size_t l = 0; l < (scalar ? 1 : n); ++l) { T s = red(op, after[i], val[l]); after[i] = choose<T>((mask[l] != 0) & (idx[l] == i), s, after[i]); }
    }
    uint32_t r = jit_var_scatter(t.v, v, x, m, op, mode);
    drop(t.v);
    T o[12]; fetch(r, o, N);
    for (size_t k = 0; k < N; ++k) {
        int eq = VT<T>::flt ? (same(o[k], after[k]) | ((o[k] == 0) & (after[k] == 0))) : same(o[k], after[k]);
        sym_assert(eq, "a scatter-reduction combines exactly the addressed, unmasked elements"); observe("t", o[k]); after[k] = o[k];
    }
    check_target(t, before, r, "the result of a scatter-reduction is stable", after);
    drop(r); drop(v); drop(x); drop(m); sym_reach("end");
}
ENTRY t_reduce() { DISPATCH_ALL(sym_param(0), scatter_reduce<T>()); }
// params: type, mode, packet size, flag, duplicates
template <typename T> static void rpacket() {
    size_t n = 3, k = (size_t) sym_param(2), N = 3 * k; jit_set_flag(JitFlag::PacketOps, (int) sym_param(3)); few_symbols = 2;
    Target<T> t; make_target(T_SHARED, t, N);
    uint64_t idx[8]; uint8_t mask[8]; T val[8][8], before[12], after[12]; uint32_t vs[8];
    uint32_t m = make_mask(M_ARR, mask, n), x;
    if (sym_param(5)) x = make_index(I_U32, idx, mask, n, 3); else { uint32_t c[3] = { 1, 0, sym_param(4) ? 1u : 2u }; for (size_t l = 0; l < n; ++l) idx[l] = c[l]; x = arr(c, 3); }
    for (size_t j = 0; j < k; ++j) { for (size_t l = 0; l < n; ++l) val[j][l] = VT<T>::flt ? (T) (int) (j * 3 + l + 1) : sym<T>("val"); vs[j] = arr(val[j], n); }
    if (!sym_param(4)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j]));
    for (size_t i = 0; i < N; ++i) { before[i] = after[i] = t.ref[i]; for (size_t l = 0; l < n; ++l) { T s = red(ReduceOp::Add, after[i], val[i % k][l]); after[i] = choose<T>((mask[l] != 0) & (idx[l] == i / k), s, after[i]); } }
    uint32_t r = jit_var_scatter_packet(k, t.v, vs, x, m, ReduceOp::Add, (ReduceMode) sym_param(1));
    drop(t.v); for (size_t j = 0; j < k; ++j) drop(vs[j]);
    check_target(t, before, r, "a packet scatter-addition combines exactly the addressed, unmasked elements", after);
    drop(r); drop(x); drop(m); sym_reach("end");
}
ENTRY t_rpacket() { DISPATCH_ALL(sym_param(0), rpacket<T>()); }
// ---- scatter_inc / exch / cas ------------------------------------------------
// params: target form, mask form
ENTRY t_inc() {
    using T = uint32_t; size_t n = (size_t) sym_param(2), N = 3; Target<T> t; make_target((int) sym_param(0), t, N); N = t.n;
    uint64_t idx[8]; uint8_t mask[8]; T before[12], after[12], o[8];
    uint32_t m = make_mask((int) sym_param(1), mask, n), x = make_index(I_U32, idx, mask, n, N);
    for (size_t i = 0; i < N; ++i) { before[i] = after[i] = t.ref[i]; for (size_t l = 0; l < n; ++l) after[i] += (mask[l] != 0) & (idx[l] == i); }
    uint32_t h = t.v, r = jit_var_scatter_inc(&h, x, m);
    fetch(r, o, n);
    for (size_t i = 0; i < n; ++i) {
        sym_assert(mask[i] | (o[i] == 0), "a masked lane of a scatter increment returns zero");
        T b = pick_(before, N, idx[i]), a = pick_(after, N, idx[i]); (void) a;
        uint32_t cnt = 0; for (size_t l = 0; l < n; ++l) cnt += (mask[l] != 0) & (idx[l] == idx[i]);
        sym_assert(!mask[i] | ((T) (o[i] - b) < cnt), "a scatter increment returns a value that the counter had");
        for (size_t l = 0; l < i; ++l) sym_assert(!(mask[i] & mask[l]) | (idx[i] != idx[l]) | (o[i] != o[l]), "a scatter increment returns distinct values");
        sym_observe("o", o[i]);
    }
    t.v = h; check_target(t, before, h, "a scatter increment adds the number of unmasked lanes", after);
    drop(r); drop(h); drop(x); drop(m); sym_reach("end");
}
// params: type, target form, mask form, value form
template <typename T> static void exch() {
    size_t n = 3, N = 3; Target<T> t; make_target((int) sym_param(1), t, N); N = t.n; int vf = (int) sym_param(3);
    uint64_t idx[8]; uint8_t mask[8]; T before[12], after[12], o[8], val[8];
    uint32_t m = make_mask((int) sym_param(2), mask, n), x = make_index(I_U32, idx, mask, n, N), v;
    if (vf == 1) { for (size_t i = 0; i < n; ++i) val[i] = (T) 7; v = lit<T>((T) 7); } else v = make_source(S_ARR, val, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j]));
    for (size_t i = 0; i < N; ++i) { before[i] = after[i] = t.ref[i]; for (size_t l = 0; l < n; ++l) after[i] = choose<T>((mask[l] != 0) & (idx[l] == i), val[l], after[i]); }
    uint32_t h = t.v, r = jit_var_scatter_exch(&h, v, x, m);
    fetch(r, o, n);
    for (size_t i = 0; i < n; ++i) { sym_assert(same(o[i], mask[i] ? pick_(before, N, idx[i]) : zero<T>()), "an exchange returns the old element, or zero when masked"); observe("o", o[i]); }
    check_target(t, before, h, "an exchange writes exactly the addressed, unmasked elements", after);
    drop(r); drop(h); drop(v); drop(x); drop(m); sym_reach("end");
}
ENTRY t_exch() { DISPATCH_ALL(sym_param(0), exch<T>()); }
template <typename T> static void cas() {
    size_t n = 3, N = 3; Target<T> t; make_target((int) sym_param(1), t, N); N = t.n; int vf = (int) sym_param(3);
    uint64_t idx[8]; uint8_t mask[8]; T before[12], after[12], o[8], val[8], cmp[8]; bool s[8];
    uint32_t m = make_mask((int) sym_param(2), mask, n), x = make_index(I_U32, idx, mask, n, N), v, c = make_source(S_ARR, cmp, n);
    if (vf == 1) { for (size_t i = 0; i < n; ++i) val[i] = (T) 7; v = lit<T>((T) 7); } else v = make_source(S_ARR, val, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(mask[i] & mask[j]) | (idx[i] != idx[j]));
    using U = uint_of<T>; auto eqb = [](T a, T b) { return bits<U>(a) == bits<U>(b); };
    for (size_t i = 0; i < N; ++i) { before[i] = after[i] = t.ref[i]; for (size_t l = 0; l < n; ++l) after[i] = choose<T>((mask[l] != 0) & (idx[l] == i) & eqb(before[i], cmp[l]), val[l], after[i]); }
    uint32_t h = t.v, r = 0, ok = 0; jit_var_scatter_cas(&h, c, v, x, m, &r, &ok);
    jit_var_schedule(r); jit_var_schedule(ok); jit_eval(); // the two must be computed together
    fetch(r, o, n); fetch(ok, s, n);
    for (size_t i = 0; i < n; ++i) {
        T b = pick_(before, N, idx[i]);
        sym_assert(same(o[i], mask[i] ? b : zero<T>()), "a compare-and-swap returns the old element, or zero when masked"); observe("o", o[i]);
        sym_assert(s[i] == ((mask[i] != 0) & eqb(b, cmp[i])), "a compare-and-swap reports whether it wrote"); sym_observe("s", s[i]);
    }
    check_target(t, before, h, "a compare-and-swap writes exactly the matching elements", after);
    drop(r); drop(ok); drop(h); drop(v); drop(c); drop(x); drop(m); sym_reach("end");
}
ENTRY t_cas() { DISPATCH_ALL(sym_param(0), cas<T>()); }
