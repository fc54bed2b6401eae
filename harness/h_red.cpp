// Reductions, prefix reductions, compression, permutations and bulk memory
// operations against sequential references, for several thread counts, work
// unit sizes and execution orders.
#include "h_util.h"
extern "C" { extern uint32_t nt_pool_size, nt_order, nt_ids; }
static void machine(uint32_t workers) { // also picks an execution order
    jit_llvm_set_thread_count(workers); jit_llvm_set_block_size(4);
    if (workers > 1) { nt_order = sym_choose("order", 3); nt_ids = 1; }
}
static const ReduceOp OPS_[] = { ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or };
// Small primes etc.: concrete, distinct floats whose sums and products are exact
template <typename T> static T elem(ReduceOp op, size_t i) {
    if constexpr (VT<T>::flt) {
        if (op == ReduceOp::Min || op == ReduceOp::Max) { if (i < 3) { T v = sym<T>("x"); sym_assume(!is_nan(v)); return v; } return (T) ((int) ((i * 7) % 11) - 5); }
        if (op == ReduceOp::Mul) return i % 5 == 1 ? (T) 2 : i % 5 == 3 ? (T) -0.5f : i % 7 == 2 ? (T) 4 : (T) 1;
        return (T) ((i * 5) % 13 + 1);
    } else { if ((op == ReduceOp::Mul && i != 2) || ((op == ReduceOp::Min || op == ReduceOp::Max) && i != 0 && i % 11 != 3)) return (T) (0x9e3779b97f4a7c15ull * (i + 1) | 1); return sym<T>("x"); }
}
template <typename T> static T red(ReduceOp op, T a, T b) {
    using U = uint_of<T>;
    if constexpr (VT<T>::flt) switch (op) {
        case ReduceOp::Add: return (T) (a + b); case ReduceOp::Mul: return (T) (a * b);
        case ReduceOp::Min: return choose(b < a, b, a); default: return choose(b > a, b, a);
    } else switch (op) {
        case ReduceOp::Add: return (T) (U) ((U) a + (U) b); case ReduceOp::Mul: { using W = std::conditional_t<sizeof(U) == 8, uint64_t, uint32_t>; return (T) (U) ((W) (U) a * (W) (U) b); }
        case ReduceOp::Min: return choose(b < a, b, a); case ReduceOp::Max: return choose(b > a, b, a);
        case ReduceOp::And: return (T) (a & b); default: return (T) (a | b);
    }
}
template <typename T> static T ident(ReduceOp op) {
    switch (op) {
        case ReduceOp::Mul: return (T) 1;
        case ReduceOp::Min: if constexpr (VT<T>::flt) return (T) __builtin_inf(); else return std::is_signed_v<T> ? (T) ~((T) 1 << (sizeof(T) * 8 - 1)) : (T) -1;
        case ReduceOp::Max: if constexpr (VT<T>::flt) return (T) -__builtin_inf(); else return std::is_signed_v<T> ? (T) ((T) 1 << (sizeof(T) * 8 - 1)) : (T) 0;
        case ReduceOp::And: return (T) -1;
        default: return (T) 0;
    }
}
template <typename T> static int eq(T a, T b) { if constexpr (VT<T>::flt) return same(a, b) | ((a == 0) & (b == 0)); else return a == b; }
static const uint32_t MAXN = 80;
template <typename T> static T *buffer(size_t n) { T *p = (T *) jit_malloc(BK, (n + 2) * sizeof(T)); return p; }
// ---- block reductions: type, op, size, block size, workers, form -------------
enum { RAW, VAR, VARSYM, PENDING, WHOLE, SCALAR };
template <typename T> static void bred() {
    ReduceOp op = OPS_[sym_param(1)]; uint32_t n = (uint32_t) sym_param(2), bs = (uint32_t) sym_param(3); int form = (int) sym_param(5);
    machine((uint32_t) sym_param(4));
    T x[MAXN], e[MAXN], o[MAXN]; for (uint32_t i = 0; i < n; ++i) x[i] = elem<T>(op, i);
    uint32_t m = (n + bs - 1) / bs; for (uint32_t i = 0; i < m; ++i) e[i] = ident<T>(op);
    for (uint32_t i = 0; i < n; ++i) e[i / bs] = i % bs ? red(op, e[i / bs], x[i]) : x[i];
    if (form == RAW) {
        T *in = buffer<T>(n), *out = buffer<T>(m); for (uint32_t i = 0; i < n; ++i) in[i] = x[i];
        out[m] = (T) 77; out[m + 1] = (T) 78;
        if (bs == n && n % 2) jit_reduce(BK, VT<T>::v, op, in, n, out); else jit_block_reduce(BK, VT<T>::v, op, n, bs, in, out);
        jit_sync_thread();
        for (uint32_t i = 0; i < m; ++i) o[i] = out[i];
        for (uint32_t i = 0; i < n; ++i) sym_assert(same(in[i], x[i]), "a reduction leaves its input as it was");
        sym_assert(out[m] == (T) 77 && out[m + 1] == (T) 78, "a reduction writes only its output");
        jit_free(in); jit_free(out);
    } else {
        uint32_t v = arr(x, n), r = 0, w = 0;
        if (form == PENDING) { T y[MAXN]; for (uint32_t i = 0; i < n; ++i) { if constexpr (VT<T>::flt) y[i] = -x[i]; else y[i] = (T) (0 - (uint_of<T>) x[i]); } drop(v); w = arr(y, n); v = jit_var_neg(w); }
        uint32_t ref = jit_var_ref(v);
        if (form == WHOLE) r = jit_var_reduce(BK, VT<T>::v, op, v);
        else r = jit_var_block_reduce(op, v, bs, form == VARSYM ? 1 : form == VAR ? 0 : -1);
        fetch(r, o, m); drop(r);
        if (w) drop(w);
        sym_assert(jit_var_ref(v) == ref, "no reference is leaked");
        T c[MAXN]; fetch(v, c, n); for (uint32_t i = 0; i < n; ++i) sym_assert(eq(c[i], x[i]), "a reduction leaves its input as it was");
        drop(v);
    }
    for (uint32_t i = 0; i < m; ++i) { sym_assert(eq(o[i], e[i]), "every block is reduced over exactly its elements"); if (!VT<T>::flt) observe("o", o[i]); }
    sym_reach("end");
}
ENTRY t_bred() { switch ((VarType) sym_param(0)) { case VarType::UInt8: bred<uint8_t>(); break; case VarType::Int32: bred<int32_t>(); break; case VarType::UInt32: bred<uint32_t>(); break; case VarType::Int64: bred<int64_t>(); break; case VarType::UInt64: bred<uint64_t>(); break; DISPATCH_FLT_CASES(bred) default: break; } }
// ---- prefix reductions: type, op, size, block, workers, exclusive + 2 * reverse, form
template <typename T> static void bpre() {
    ReduceOp op = OPS_[sym_param(1)]; uint32_t n = (uint32_t) sym_param(2), bs = (uint32_t) sym_param(3); int form = (int) sym_param(6);
    bool ex = sym_param(5) & 1, rev = sym_param(5) & 2;
    machine((uint32_t) sym_param(4));
    T x[MAXN], e[MAXN], o[MAXN]; for (uint32_t i = 0; i < n; ++i) x[i] = elem<T>(op, i);
    for (uint32_t b = 0; b < n; b += bs) {
        uint32_t end = b + bs < n ? b + bs : n; T acc = ident<T>(op); bool first = true;
        for (uint32_t k = 0; k < end - b; ++k) {
            uint32_t i = rev ? end - 1 - k : b + k;
            if (ex) e[i] = acc;
            acc = first ? x[i] : red(op, acc, x[i]); first = false;
            if (!ex) e[i] = acc;
        }
    }
    if (form <= 1) {
        T *in = buffer<T>(n), *out = form ? in : buffer<T>(n); for (uint32_t i = 0; i < n; ++i) in[i] = x[i];
        out[n] = (T) 77; out[n + 1] = (T) 78;
        jit_block_prefix_reduce(BK, VT<T>::v, op, n, bs, ex, rev, in, out); jit_sync_thread();
        for (uint32_t i = 0; i < n; ++i) o[i] = out[i];
        if (!form) for (uint32_t i = 0; i < n; ++i) sym_assert(same(in[i], x[i]), "a prefix reduction leaves its input as it was");
        sym_assert(out[n] == (T) 77 && out[n + 1] == (T) 78, "a prefix reduction writes only its output");
        if (!form) jit_free(in);
        jit_free(out);
    } else {
        uint32_t v = arr(x, n), w = 0;
        if (form == 3) { T y[MAXN]; for (uint32_t i = 0; i < n; ++i) { if constexpr (VT<T>::flt) y[i] = -x[i]; else y[i] = (T) (0 - (uint_of<T>) x[i]); } drop(v); w = arr(y, n); v = jit_var_neg(w); }
        uint32_t r = jit_var_block_prefix_reduce(op, v, bs, ex, rev);
        fetch(r, o, n); drop(r); if (w) drop(w);
        T c[MAXN]; fetch(v, c, n); for (uint32_t i = 0; i < n; ++i) sym_assert(eq(c[i], x[i]), "a prefix reduction leaves its input as it was");
        drop(v);
    }
    for (uint32_t i = 0; i < n; ++i) { sym_assert(eq(o[i], e[i]), "every element is the reduction of exactly its predecessors in the block"); if (!VT<T>::flt) observe("o", o[i]); }
    sym_reach("end");
}
ENTRY t_bpre() { switch ((VarType) sym_param(0)) { case VarType::UInt8: bpre<uint8_t>(); break; case VarType::Int32: bpre<int32_t>(); break; case VarType::UInt32: bpre<uint32_t>(); break; case VarType::Int64: bpre<int64_t>(); break; case VarType::UInt64: bpre<uint64_t>(); break; DISPATCH_FLT_CASES(bpre) default: break; } }
// ---- literals and undefined arrays: type, op, size, block, kind (0 reduce, 1 block, 2.. prefix 4 variants)
template <typename T> static void lred() {
    ReduceOp op = OPS_[sym_param(1)]; uint32_t n = (uint32_t) sym_param(2), bs = (uint32_t) sym_param(3), kind = (uint32_t) sym_param(4);
    T x; if constexpr (VT<T>::flt) { if (op == ReduceOp::Min || op == ReduceOp::Max) { x = sym<T>("x"); sym_assume(!is_nan(x)); } else x = sym_choose("x", 2) ? (T) -2 : op == ReduceOp::Mul ? (T) .5f : (T) 1.5f; } 
    else if (kind >= 2 || bs < n) { uint32_t c = sym_choose("x", 5); x = c == 0 ? (T) 3 : c == 1 ? (T) -1 : c == 2 ? (T) 0x7fffffffffffffffull : c == 3 ? (T) 0xaaaaaaaaaaaaaaabull : (T) 0; }
    else if (op == ReduceOp::Mul || n > 50) { uint32_t c = sym_choose("x", 6); x = c == 0 ? (T) 3 : c == 1 ? (T) -1 : c == 2 ? (T) 0x7fffffffffffffffull : c == 3 ? (T) 0xaaaaaaaaaaaaaaabull : c == 4 ? (T) 2 : (T) 0; }
    else x = sym<T>("x");
    uint32_t v = lit(x, n), r, m; T e[320], o[320];
    if (kind < 2) {
        m = kind ? (n + bs - 1) / bs : 1; if (!kind) bs = n;
        for (uint32_t i = 0; i < n; ++i) e[i / bs] = i % bs ? red(op, e[i / bs], x) : x;
        r = kind ? jit_var_block_reduce(op, v, bs, -1) : jit_var_reduce(BK, VT<T>::v, op, v);
    } else {
        bool ex = (kind - 2) & 1, rev = (kind - 2) & 2; m = n;
        for (uint32_t b = 0; b < n; b += bs) {
            uint32_t end = b + bs < n ? b + bs : n; T acc = ident<T>(op);
            for (uint32_t k = 0; k < end - b; ++k) { uint32_t i = rev ? end - 1 - k : b + k; if (ex) e[i] = acc; acc = k ? red(op, acc, x) : x; if (!ex) e[i] = acc; }
        }
        r = jit_var_block_prefix_reduce(op, v, bs, ex, rev);
    }
    fetch(r, o, m);
    for (uint32_t i = 0; i < m; ++i) { sym_assert(eq(o[i], e[i]), "the reduction of a constant array has the value of the reduction"); if (!VT<T>::flt) observe("o", o[i]); }
    drop(r); drop(v); sym_reach("end");
}
ENTRY t_lred() { switch ((VarType) sym_param(0)) { case VarType::Int8: lred<int8_t>(); break; case VarType::UInt8: lred<uint8_t>(); break; case VarType::Int16: lred<int16_t>(); break; case VarType::UInt16: lred<uint16_t>(); break; case VarType::Int32: lred<int32_t>(); break; case VarType::UInt32: lred<uint32_t>(); break; case VarType::Int64: lred<int64_t>(); break; case VarType::UInt64: lred<uint64_t>(); break; DISPATCH_FLT_CASES(lred) default: break; } }
// ---- compression: size, workers, form ----------------------------------------
enum { C_RAW, C_ARR, C_EXPR, C_LIT1, C_LIT0, C_SHRUNK };
ENTRY t_compress() {
    uint32_t n = (uint32_t) sym_param(0); int form = (int) sym_param(2); machine((uint32_t) sym_param(1));
    uint8_t m[MAXN]; bool b[MAXN]; uint32_t e[MAXN], cnt = 0, o[MAXN], got = 0;
    for (uint32_t i = 0; i < n; ++i) { // every mask (as a path), or a symbolic prefix for long arrays
        b[i] = form == C_LIT1 ? true : form == C_LIT0 ? false : (n <= (sym_param(1) > 1 ? 7 : 8) || i % 9 == 3 || i + 1 == n) ? sym<bool>("m") : (i % 3 == 0);
        m[i] = b[i];
    }
    if (form == C_RAW) {
        uint8_t *in = buffer<uint8_t>(n + 2); uint32_t *out = buffer<uint32_t>(n);
        memcpy(in, m, n); out[n] = 77;
        got = jit_compress(BK, in, n, out); jit_sync_thread();
        for (uint32_t i = 0; i < n; ++i) if (b[i]) e[cnt++] = i;
        for (uint32_t i = 0; i < got && i < n; ++i) o[i] = out[i];
        for (uint32_t i = 0; i < n; ++i) sym_assert(in[i] == m[i], "compress leaves its input as it was");
        sym_assert(out[n] == 77, "compress writes only its output");
        jit_free(in); jit_free(out);
    } else {
        bool c[MAXN]; for (uint32_t i = 0; i < n; ++i) c[i] = !b[i];
        bool big[MAXN + 4]; memcpy(big, b, n); for (int i = 0; i < 4; ++i) big[n + i] = true;
        uint32_t p = 0, v;
        if (form == C_ARR) v = arr(b, n); else if (form == C_EXPR) { p = arr(c, n); v = jit_var_not(p); } else if (form == C_SHRUNK) { p = arr(big, n + 4); v = jit_var_shrink(p, n); } else v = lit(form == C_LIT1, n);
        uint32_t r = jit_var_compress(v);
        for (uint32_t i = 0; i < n; ++i) if (b[i]) e[cnt++] = i; // decided by the path
        sym_assert((r != 0) == (cnt != 0), "compressing a mask without active entries gives an empty array");
        if (r) { got = (uint32_t) jit_var_size(r); if (got == cnt) fetch(r, o, cnt); drop(r); }
        drop(v); if (p) drop(p);
    }
    sym_assert(got == cnt, "compress returns the number of active entries");
    for (uint32_t i = 0; i < cnt; ++i) sym_assert(o[i] == e[i], "compress returns the active indices in order");
    sym_observe("cnt", cnt); sym_reach("end");
}
// ---- sorting permutations: size, block size, buckets, workers, with offsets ---
ENTRY t_mkperm() {
    uint32_t n = (uint32_t) sym_param(0), bs = (uint32_t) sym_param(1), nb = (uint32_t) sym_param(2); bool offs = sym_param(4);
    machine((uint32_t) sym_param(3));
    uint32_t *val = buffer<uint32_t>(n), *perm = buffer<uint32_t>(n), *off = offs ? buffer<uint32_t>(nb * 4 + 1) : nullptr, x[MAXN];
    uint32_t *vc = (uint32_t *) malloc(n * 4);
    for (uint32_t i = 0; i < n; ++i) { x[i] = (n <= 5 || i == 0 || i == bs || (i + 1 == n && nb < 3)) ? sym_u32("v") : (i * 5 + i / 3) % nb; sym_assume(x[i] < nb); val[i] = x[i]; perm[i] = 999; }
    perm[n] = 77; free(vc);
    uint32_t u = jit_block_mkperm(BK, val, n, bs, nb, perm, off); jit_sync_thread();
    for (uint32_t i = 0; i < n; ++i) sym_assert(val[i] == x[i], "the values are left as they were");
    sym_assert(perm[n] == 77, "only the permutation is written");
    uint8_t seen[MAXN] = {};
    for (uint32_t b = 0; b < n; b += bs) {
        uint32_t end = b + bs < n ? b + bs : n;
        for (uint32_t i = b; i < end; ++i) {
            bool in = perm[i] >= b && perm[i] < end; sym_assert(in, "each group is permuted within itself"); if (!in) return;
            sym_assert(!seen[perm[i]], "the permutation has no duplicate"); seen[perm[i]] = 1;
            if (i > b) sym_assert(x[perm[i - 1]] < x[perm[i]] || (x[perm[i - 1]] == x[perm[i]] && perm[i - 1] < perm[i]), "the permutation sorts every group, stably");
            sym_observe("p", perm[i]);
        }
    }
    uint32_t cnt[16] = {}, uniq = 0; for (uint32_t i = 0; i < n; ++i) cnt[x[i]]++;
    if (offs) {
        uint32_t start = 0;
        for (uint32_t k = 0; k < nb; ++k) if (cnt[k]) {
            sym_assert(off[uniq * 4] == k && off[uniq * 4 + 1] == start && off[uniq * 4 + 2] == cnt[k], "the offsets describe the non-empty buckets");
            start += cnt[k]; uniq++;
        }
    }
    sym_assert(u == uniq, "the number of unique values is returned");
    jit_free(val); jit_free(perm); if (off) jit_free(off);
    sym_reach("end");
}
// ---- bulk memory: kind, size/element size, workers ----------------------------
ENTRY t_bulk() {
    machine((uint32_t) sym_param(3)); uint32_t kind = (uint32_t) sym_param(0), n = (uint32_t) sym_param(1), es = (uint32_t) sym_param(2);
    uint8_t *p = (uint8_t *) jit_malloc(BK, n * es + 16), *q = (uint8_t *) jit_malloc(BK, n * es + 16);
    for (uint32_t i = 0; i < n * es + 16; ++i) { p[i] = (uint8_t) (i + 1); q[i] = sym_u8("q"); }
    if (kind == 0) { // fill
        uint64_t v = sym_choose("zero", 2) ? 0 : sym_u64("v"); jit_memset_async(BK, p + 8, n, es, &v); jit_sync_thread();
        for (uint32_t i = 0; i < n; ++i) sym_assert(!memcmp(p + 8 + i * es, &v, es) , "a fill writes the value to every element");
    } else {
        if (kind == 1) jit_memcpy(BK, p + 8, q, n * es); else { jit_memcpy_async(BK, p + 8, q, n * es); jit_sync_thread(); }
        for (uint32_t i = 0; i < n * es; ++i) { sym_assert(p[8 + i] == q[i], "a copy copies every byte"); sym_observe("p", p[8 + i]); }
    }
    for (uint32_t i = 0; i < 8; ++i) sym_assert(p[i] == (uint8_t) (i + 1) && p[8 + n * es + i] == (uint8_t) (9 + n * es + i), "nothing outside the range is written");
    jit_free(p); jit_free(q); sym_reach("end");
}
ENTRY t_memset_bad() { // sizes other than 1, 2, 4, 8 are refused
    uint8_t b[64] = {}, c[64] = {}; uint64_t v = 1; uint32_t es = sym_choose("es", 10);
    bool r = raises([&] { jit_memset_async(BK, b, 2, es, &v); }); jit_sync_thread();
    sym_assert(r == !(es == 1 || es == 2 || es == 4 || es == 8), "invalid element sizes are refused");
    if (r) sym_assert(!memcmp(b, c, 64), "nothing is written");
    sym_reach("end");
}
// ---- horizontal boolean reductions: size, form, workers ----------------------
enum { B_ARR, B_EXPR, B_LIT1, B_LIT0, B_CMP, B_DEFAULT, B_SHRUNK, B_MAPPED };
ENTRY t_any() {
    uint32_t n = (uint32_t) sym_param(0); int form = (int) sym_param(1); machine((uint32_t) sym_param(2));
    bool b[MAXN], c[MAXN]; uint8_t x[MAXN]; bool big[MAXN]; uint32_t p = 0, v;
    for (uint32_t i = 0; i < n; ++i) {
        if (form == B_LIT1 || form == B_DEFAULT) b[i] = true; else if (form == B_LIT0) b[i] = false;
        else if (form == B_CMP) { x[i] = sym_u8("x"); b[i] = x[i] < 50; }
        else b[i] = sym<bool>("b");
        c[i] = !b[i];
    }
    bool *ext = nullptr;
    for (uint32_t i = 0; i < n + 4; ++i) big[i] = i < n ? b[i] : sym<bool>("tail");
    switch (form) {
        case B_ARR: v = arr(b, n); break;
        case B_EXPR: p = arr(c, n); v = jit_var_not(p); break;
        case B_CMP: { p = arr(x, n); uint32_t l = lit<uint8_t>(50); v = jit_var_lt(p, l); drop(l); } break;
        case B_DEFAULT: v = jit_var_mask_default(BK, n); break;
        case B_SHRUNK: p = arr(big, n + 4); v = jit_var_shrink(p, n); break;
        case B_MAPPED: ext = (bool *) malloc(n); memcpy(ext, b, n); v = jit_var_mem_map(BK, VarType::Bool, ext, n, 0); break;
        default: v = lit(form == B_LIT1, n);
    }
    bool any = false, all = true; for (uint32_t i = 0; i < n; ++i) { any |= b[i]; all &= b[i]; }
    uint32_t ref = jit_var_ref(v);
    if (sym_choose("async", 2)) {
        bool o; uint32_t r = jit_var_any_async(BK, v), s = jit_var_all_async(BK, v);
        fetch(r, &o, 1); sym_assert(o == any, "any() is the disjunction of all elements"); sym_observe("any", o);
        fetch(s, &o, 1); sym_assert(o == all, "all() is the conjunction of all elements"); sym_observe("all", o);
        drop(r); drop(s);
    } else {
        bool a = jit_var_any(v), l = jit_var_all(v);
        sym_assert(a == any, "any() is the disjunction of all elements"); sym_assert(l == all, "all() is the conjunction of all elements");
        sym_observe("any", a); sym_observe("all", l);
    }
    sym_assert(jit_var_ref(v) == ref, "no reference is leaked");
    bool o[MAXN]; fetch(v, o, n); for (uint32_t i = 0; i < n; ++i) sym_assert(o[i] == b[i], "the array keeps its contents");
    if (form == B_SHRUNK) { fetch(p, o, n + 4); for (uint32_t i = 0; i < n + 4; ++i) sym_assert(o[i] == big[i], "the array that a view refers to keeps its contents"); }
    drop(v); if (p) drop(p); free(ext);
    sym_reach("end");
}
// ---- dot products: type, size, form 1, form 2, workers -----------------------
template <typename T> static void dot() {
    uint32_t n = (uint32_t) sym_param(1); machine((uint32_t) sym_param(4));
    T x[2][MAXN]; uint32_t v[2], p[2] = {}; uint32_t size[2];
    uint32_t hot = sym_choose("hot", n);
    for (int k = 0; k < 2; ++k) {
        int form = (int) sym_param(2 + k);
        T s = VT<T>::flt ? (T) 2 : (T) 3;
        T y[MAXN];
        for (uint32_t i = 0; i < n; ++i) {
            if constexpr (VT<T>::flt) { x[k][i] = (T) (k ? (int) (i % 5) - 2 : (int) (i % 3) + 1); if (i == hot && form != 1 && form != 3) { if (k) x[k][i] = (T) 1; else { x[k][i] = (sizeof(T) == 2 || n > 3 || form == 4) ? (T) 5 : bits<T>((uint_of<T>) (raw(sym<uint16_t>("h")))); } } }
            else x[k][i] = (i == hot || (k && i < 2)) ? sym<T>("x") : (T) (i * 7 + k + 1);
            if (form == 1 || form == 3 || form == 5) x[k][i] = s;
            if (form == 4) x[k][i] = x[k][0];
            if constexpr (VT<T>::flt) y[i] = -x[k][i]; else y[i] = (T) (0 - (uint_of<T>) x[k][i]);
        }
        size[k] = form == 3 || form == 4 ? 1 : n;
        switch (form) {
            case 0: v[k] = arr(x[k], n); break;
            case 1: v[k] = lit(s, n); break;
            case 2: p[k] = arr(y, n); v[k] = jit_var_neg(p[k]); break;
            case 3: v[k] = lit(s); break;
            case 4: v[k] = arr(x[k], 1); break;
            case 5: { T h = s; p[k] = arr(&h, 1); uint32_t z = counter(n), f = jit_var_cast(z, VT<T>::v, 0), m = jit_var_mul(f, f), d = jit_var_sub(m, m); drop(z); drop(f); drop(m); v[k] = jit_var_add(d, p[k]); drop(d); } break;
        }
    }
    if (size[0] == 1 && size[1] == 1) n = 1;
    T e = (T) 0, o; for (uint32_t i = 0; i < n; ++i) { if constexpr (VT<T>::flt) e = (T) (e + x[0][i] * x[1][i]); else e = (T) ((uint_of<T>) e + (uint_of<T>) x[0][i] * (uint_of<T>) x[1][i]); }
    uint32_t ref[2] = { jit_var_ref(v[0]), jit_var_ref(v[1]) };
    uint32_t r = jit_var_reduce_dot(v[0], v[1]);
    fetch(r, &o, 1); drop(r);
    sym_assert(eq(o, e), "a dot product sums the products of all elements"); if (!VT<T>::flt) observe("o", o);
    for (int k = 0; k < 2; ++k) sym_assert(jit_var_ref(v[k]) == ref[k], "no reference is leaked");
    for (int k = 0; k < 2; ++k) { drop(v[k]); if (p[k]) drop(p[k]); }
    sym_reach("end");
}
ENTRY t_dot() { switch ((VarType) sym_param(0)) { case VarType::Int32: dot<int32_t>(); break; case VarType::UInt32: dot<uint32_t>(); break; case VarType::UInt64: dot<uint64_t>(); break; DISPATCH_FLT_CASES(dot) default: break; } }
// ---- undefined and empty operands -------------------------------------------
ENTRY t_undef() {
    uint32_t u = jit_var_undefined(BK, VarType::UInt32, 5), b = jit_var_undefined(BK, VarType::Bool, 5), f = jit_var_undefined(BK, VarType::Float32, 5), r = 0;
    float x[5] = { 1, 2, 3, 4, 5 }; uint32_t a = arr(x, 5);
    machine(1 + (uint32_t) sym_choose("w", 2));
    uint32_t size = 1;
    switch (sym_param(0)) {
        case 0: r = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Add, u); break;
        case 1: r = jit_var_block_reduce(ReduceOp::Add, u, 2, 0); size = 3; break;
        case 2: r = jit_var_block_prefix_reduce(ReduceOp::Add, u, 5, 0, 0); size = 5; break;
        case 3: (void) jit_var_any(b); break;
        case 4: (void) jit_var_all(b); break;
        case 5: r = jit_var_any_async(BK, b); break;
        case 6: r = jit_var_all_async(BK, b); break;
        case 7: r = jit_var_reduce_dot(f, a); break;
        case 8: r = jit_var_reduce_dot(a, f); break;
        case 9: r = jit_var_compress(b); size = 0; break;
        case 10: r = jit_var_reduce_dot(f, f); break;
        // empty operands
        case 11: r = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Add, 0); break;
        case 12: sym_assert(jit_var_block_reduce(ReduceOp::Add, 0, 3, 0) == 0, "empty"); break;
        case 13: sym_assert(jit_var_block_prefix_reduce(ReduceOp::Add, 0, 3, 0, 0) == 0, "empty"); break;
        case 14: sym_assert(!jit_var_any(0) && jit_var_all(0), "empty"); break;
        case 15: { bool o; r = jit_var_any_async(BK, 0); fetch(r, &o, 1); sym_assert(!o, "empty"); } break;
        case 16: { bool o; r = jit_var_all_async(BK, 0); fetch(r, &o, 1); sym_assert(o, "empty"); } break;
        case 17: sym_assert(jit_var_compress(0) == 0 && jit_var_reduce_dot(0, 0) == 0, "empty"); break;
        // refused
        case 18: sym_assert(raises([&] { r = jit_var_block_reduce(ReduceOp::Add, a, 0, 0); }), "a block size of zero is refused"); break;
        case 19: sym_assert(raises([&] { r = jit_var_block_prefix_reduce(ReduceOp::Add, a, 0, 0, 0); }), "a block size of zero is refused"); break;
        case 20: { uint32_t l = lit(2.f, 5); sym_assert(raises([&] { r = jit_var_block_prefix_reduce(ReduceOp::Add, l, 0, 0, 0); }), "a block size of zero is refused"); drop(l); } break;
        case 21: { bool t[2] = { true, false }; uint32_t m = arr(t, 2); sym_assert(raises([&] { r = jit_var_reduce(BK, VarType::Bool, ReduceOp::Add, m); }), "sums of booleans are refused"); drop(m); } break;
        case 22: { uint16_t t[2] = { 1, 2 }; uint32_t m = arr(t, 2); bool ok = raises([&] { r = jit_var_reduce(BK, VarType::UInt16, ReduceOp::Add, m); }); (void) ok; drop(m); } break;
        case 23: sym_assert(raises([&] { r = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Add, a); }), "a type mismatch is refused"); break;
    }
    if (r && size) { sym_assert(jit_var_size(r) == size, "the result has the expected size"); }
    if (r) { jit_var_eval(r); drop(r); }
    drop(u); drop(b); drop(f); drop(a);
    sym_reach("end");
}
