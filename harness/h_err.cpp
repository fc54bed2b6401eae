// Operand validation: incompatible sizes are refused, compatible ones are
// broadcast, and in either case every operand is left exactly as it was.
#include "h_util.h"
struct Opnd { uint32_t idx; uint32_t size; uint32_t ref; int form; VarState st; };
template <typename T> struct Src { T one, tri[3], two[2]; };
static uint32_t g_base[2]; // hidden operands of expressions
template <typename T> static uint32_t mk(int form, const Src<T> &s) {
    auto neg = [](uint32_t a) { uint32_t r = std::is_same_v<T, bool> ? jit_var_not(a) : jit_var_neg(a); drop(a); return r; };
    switch (form) {
        case 1: return arr(&s.one, 1); case 2: return arr(s.tri, 3); case 3: return arr(s.two, 2);
        case 4: return lit((T) 1); case 5: return lit((T) 1, 3); case 6: return neg(arr(&s.one, 1)); case 7: return neg(arr(s.tri, 3));
        case 8: return lit((T) 0); case 9: return lit((T) 0, 3);
        default: return 0;
    }
}
static const uint32_t SZ[] = { 0, 1, 3, 2, 1, 3, 1, 3, 1, 3 };
template <typename T> static T expect(int form, const Src<T> &s, int i) {
    auto neg = [](T a) -> T { if constexpr (std::is_same_v<T, bool>) return !a; else if constexpr (VT<T>::flt) { using U = uint_of<T>; return bits<T>((U) (bits<U>(a) ^ (U) ~(U) (((U) -1) >> 1))); } else return (T) (0 - (uint_of<T>) a); };
    switch (form) { case 1: return s.one; case 2: return s.tri[i]; case 3: return s.two[i]; case 6: return neg(s.one); case 7: return neg(s.tri[i]); case 8: case 9: return (T) 0; default: return (T) 1; }
}
static uint32_t apply(JitOp op, const uint32_t *d) { return jit_var_op(op, d); }
template <typename T> static Src<T> src() { Src<T> s; s.one = sym<T>("one"); s.tri[0] = sym<T>("tri"); s.tri[1] = (T) 1; s.tri[2] = (T) 0; s.two[0] = (T) 1; s.two[1] = (T) 0; return s; }
template <typename T> static void values(const Opnd &o, const Src<T> &s) {
    if (!o.idx) return;
    T out[3]; fetch(o.idx, out, o.size);
    for (uint32_t i = 0; i < o.size; ++i) sym_assert(same(out[i], expect(o.form, s, (int) i)), "an operand keeps its value");
}
// params: operation, type, arity, form of the first operand
template <typename T> static void run() {
    JitOp op = (JitOp) sym_param(0); int n = (int) sym_param(2);
    Src<T> s = src<T>(); Src<bool> sb; sb.one = true; sb.tri[0] = true; sb.tri[1] = false; sb.tri[2] = true; sb.two[0] = sb.two[1] = true;
    Opnd o[3]; uint32_t d[3] = {};
    bool mask0 = op == JitOp::Select;
    for (int k = 0; k < n; ++k) {
        int f = k == 0 ? (int) sym_param(3) : k == 2 ? (int) sym_choose("form3", 4) * 2 : (int) sym_choose("form", 10);
        o[k].form = f; o[k].size = SZ[f];
        o[k].idx = d[k] = (mask0 && k == 0) ? mk<bool>(f, sb) : mk<T>(f, s);
    }
    bool same_ops = n >= 2 && !mask0 && o[0].form == o[1].form && o[0].idx && sym_choose("same", 2);
    if (same_ops) { drop(d[1]); d[1] = o[1].idx = o[0].idx; jit_var_inc_ref(d[0]); }
    uint32_t mx = 0, mn = 4; for (int k = 0; k < n; ++k) { if (o[k].size > mx) mx = o[k].size; if (o[k].size < mn) mn = o[k].size; }
    bool bad = false; for (int k = 0; k < n; ++k) if (o[k].size != mx && o[k].size != 1) bad = true;
    for (int k = 0; k < n; ++k) if (d[k]) { o[k].ref = jit_var_ref(d[k]); o[k].st = jit_var_state(d[k]); }
    uint32_t r = 0; bool raised = raises([&] { r = apply(op, d); });
    if (op == JitOp::MulWide && mx == 0) bad = raised; // the type check comes first
    sym_assert(raised == bad, "incompatible operand sizes are refused, compatible ones accepted");
    if (!raised) {
        sym_assert((r != 0) == (mx != 0), "an operation on empty operands is empty");
        if (r) sym_assert(jit_var_size(r) == mx, "the result has the broadcast size");
    }
    for (int k = 0; k < n; ++k) if (d[k]) {
        sym_assert(jit_var_size(d[k]) == o[k].size, "an operand keeps its size");
        sym_assert(jit_var_state(d[k]) == o[k].st, "an operand keeps its state");
        sym_assert(jit_var_type(d[k]) == ((mask0 && k == 0) ? VarType::Bool : VT<T>::v), "an operand keeps its type");
    }
    if (r) drop(r);
    for (int k = 0; k < n; ++k) if (d[k]) sym_assert(jit_var_ref(d[k]) == o[k].ref, "no reference to an operand is leaked");
    for (int k = 0; k < n; ++k) if (!(mask0 && k == 0)) values(o[k], s); else values(o[k], sb);
    for (int k = 0; k < n; ++k) if (d[k]) drop(d[k]);
    sym_reach("end");
}
ENTRY t_size() { DISPATCH_ALL(sym_param(1), run<T>()); }
// ------------------------------------------------------------- misuse
// Calls that must be refused with an exception; all state stays as it was.
ENTRY t_misuse() {
    uint32_t u[3], s1 = sym_u32("one"); for (int i = 0; i < 3; ++i) u[i] = sym_u32("u");
    float f[3] = { 1, 2, 3 }; bool b[2] = { true, true }, b3[3] = { true, false, true };
    uint32_t a = arr(u, 3), sc = arr(&s1, 1), ff = arr(f, 3), m2 = arr(b, 2), m3 = arr(b3, 3), one = lit<bool>(true), z = lit<uint32_t>(0), two = counter(2), e = jit_var_not(a);
    uint32_t all[] = { a, sc, ff, m2, m3, one, z, two, e }, ref[9], size[9]; VarState st[9]; VarType ty[9];
    for (int i = 0; i < 9; ++i) { ref[i] = jit_var_ref(all[i]); size[i] = (uint32_t) jit_var_size(all[i]); st[i] = jit_var_state(all[i]); ty[i] = jit_var_type(all[i]); }
    uint32_t t; uint32_t out[4]; bool ok = false;
    static const uint64_t offs[] = { 3, 8, 1ull << 32, (1ull << 32) + 1, ~0ull - 1 };
    uint64_t off = sym_param(0) == 8 || sym_param(0) == 9 || sym_param(0) == 11 ? offs[sym_choose("off", 5)] : 3;
    switch (sym_param(0)) {
        case 0: ok = raises([&] { jit_var_gather(a, ff, one); }); break;                 // index is no integer
        case 1: ok = raises([&] { jit_var_gather(a, a, m2); }); break;                   // mask size
        case 2: ok = raises([&] { jit_var_gather(a, a, a); }); break;                    // mask type
        case 3: ok = raises([&] { jit_var_scatter(a, ff, z, one, ReduceOp::Identity, ReduceMode::Auto); }); break; // value type
        case 4: ok = raises([&] { jit_var_scatter(a, e, two, one, ReduceOp::Identity, ReduceMode::Auto); }); break; // sizes
        case 5: ok = raises([&] { jit_var_scatter(a, e, z, a, ReduceOp::Identity, ReduceMode::Auto); }); break; // mask type
        case 6: ok = raises([&] { jit_var_cast(a, VarType::UInt64, 1); }); break;        // reinterpretation, size
        case 7: ok = raises([&] { jit_var_cast(m3, VarType::UInt8, 1); }); break;
        case 8: ok = raises([&] { jit_var_read(a, off, &t); }); break;                   // out of range
        case 9: ok = raises([&] { jit_var_write(a, off, &t); }); break;
        case 10: ok = raises([&] { jit_var_resize(a, 5); }); break;
        case 11: ok = raises([&] { jit_var_shrink(a, (size_t) off + 1); }); break;
        case 12: ok = raises([&] { jit_var_scatter(a, e, ff, one, ReduceOp::Identity, ReduceMode::Auto); }); break;
        case 13: ok = raises([&] { jit_var_mask_push(BK, one); jit_var_mask_pop(BK); jit_var_mask_pop(BK); }); break;
        case 14: ok = raises([&] { jit_var_any(a); }); break;
        case 15: ok = raises([&] { jit_var_all(ff); }); break;
        case 16: ok = raises([&] { jit_var_gather_packet(3, a, z, one, out); }) || true; break; // may be refused or accepted
        case 17: ok = raises([&] { jit_var_scatter_inc(&a, ff, one); }); break;
        case 18: ok = raises([&] { jit_var_compress(a); }); break;
        case 19: ok = raises([&] { jit_var_select(a, a, a); }); break;
        case 20: ok = raises([&] { jit_var_select(one, a, ff); }); break;
        case 21: ok = raises([&] { jit_var_gather_packet(2, a, ff, one, out); }); break;
        case 22: ok = raises([&] { jit_var_reduce_dot(a, ff); }); break;
    }
    sym_assert(ok, "an invalid call is refused");
    for (int i = 0; i < 9; ++i) {
        if (sym_param(0) != 16) sym_assert(jit_var_ref(all[i]) == ref[i], "no reference to an operand is leaked");
        sym_assert(jit_var_size(all[i]) == size[i] && jit_var_type(all[i]) == ty[i], "an operand keeps its size and type");
        if (all[i] != e) sym_assert(jit_var_state(all[i]) == st[i], "an operand keeps its state");
    }
    uint32_t o[3]; fetch(a, o, 3); for (int i = 0; i < 3; ++i) sym_assert(o[i] == u[i], "an operand keeps its value");
    fetch(e, o, 3); for (int i = 0; i < 3; ++i) { sym_assert(o[i] == ~u[i], "an operand keeps its value"); sym_observe("e", o[i]); }
    // the library remains usable
    uint32_t r = jit_var_add(a, e); fetch(r, o, 3); for (int i = 0; i < 3; ++i) sym_assert(o[i] == 0xffffffffu, "later operations are not affected"); drop(r);
    sym_reach("end");
}
