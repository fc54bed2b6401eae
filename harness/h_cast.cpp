// Type conversions and bit casts: kernels, literals, fused rounding.
#include "h_util.h"
template <typename D> struct Lim { // open interval of the values that truncate into D
    static double lo() { return std::is_signed_v<D> ? -(double) (1ull << (sizeof(D) * 8 - 1)) : 0.0; }   // inclusive
    static double hi() { return (double) (1ull << (sizeof(D) * 8 - 1)) * (std::is_signed_v<D> ? 1 : 2); }   // exclusive
};
template <typename S, typename D> static int castable(S v) {
    if constexpr (VT<S>::flt && !VT<D>::flt && !std::is_same_v<D, bool>) {
        // |v| may exceed the range of half: compare in double
        double d = (double) v, t = __builtin_trunc(d);
        return (t >= Lim<D>::lo()) & (t < Lim<D>::hi());
    } else return 1;
}
template <typename S, typename D> static int good(D r, S v) {
    if constexpr (std::is_same_v<D, bool>) return r == (v != (S) 0);
    else if constexpr (VT<D>::flt && std::is_same_v<S, bool>) return r == (v ? (D) 1 : (D) 0);
    else if constexpr (sizeof(D) == 2 && VT<D>::flt) return same(r, (D) v) | same(r, (D) (float) v); // possibly via single precision
    else if constexpr (VT<D>::flt) return same(r, (D) v);
    else return r == (D) v;
}
template <typename S, typename D> static void check(D r, S v, const char *msg) { sym_assert(good<S, D>(r, v), msg); }
template <typename S, typename D> static void run(int mode) {
    const int N = 4;
    S in[N]; int n = mode == 1 ? 1 : N;
    for (int i = 0; i < n; ++i) { in[i] = sym<S>("a"); }
    if (mode == 1) jit_set_flag(JitFlag::ValueNumbering, 0);
    bool re = mode == 2;
    if (!re) for (int i = 0; i < n; ++i) sym_assume(castable<S, D>(in[i]));
    uint32_t a = mode == 1 ? lit(in[0]) : arr(in, n), r = jit_var_cast(a, VT<D>::v, re);
    D o[N]; fetch(r, o, n);
    for (int i = 0; i < n; ++i) {
        if (re) { if constexpr (sizeof(S) == sizeof(D)) sym_assert(raw(o[i]) == raw(in[i]), "reinterpretation preserves the bits"); }
        else check<S, D>(o[i], in[i], mode == 1 ? "converting a literal gives the converted value" : "the kernel converts each element");
        observe("r", o[i]);
    }
    drop(r); drop(a); sym_reach("end");
}
// literal reinterpretation
template <typename S, typename D> static void run_relit() {
    S v = sym<S>("a"); jit_set_flag(JitFlag::ValueNumbering, 0);
    uint32_t a = lit(v), r = jit_var_cast(a, VT<D>::v, 1); D o; fetch(r, &o, 1);
    if constexpr (sizeof(S) == sizeof(D)) sym_assert(raw(o) == raw(v), "reinterpretation preserves the bits");
    drop(r); drop(a); sym_reach("end");
}
// conversion of a rounded value; conversions of converted values
template <typename S, typename D> static void run_round(int op) {
    if constexpr (VT<S>::flt && !VT<D>::flt && !std::is_same_v<D, bool>) {
        const int N = 4; S in[N], e[N];
        for (int i = 0; i < N; ++i) {
            in[i] = sym<S>("a");
            e[i] = op == 0 ? __builtin_elementwise_floor(in[i]) : op == 1 ? __builtin_elementwise_ceil(in[i]) : op == 2 ? __builtin_elementwise_rint(in[i]) : __builtin_elementwise_trunc(in[i]);
            sym_assume(castable<S, D>(e[i]));
        }
        uint32_t a = arr(in, N), q = op == 0 ? jit_var_floor(a) : op == 1 ? jit_var_ceil(a) : op == 2 ? jit_var_round(a) : jit_var_trunc(a), r = jit_var_cast(q, VT<D>::v, 0);
        D o[N]; fetch(r, o, N);
        S p[N]; fetch(q, p, N);
        for (int i = 0; i < N; ++i) { sym_assert(o[i] == (D) e[i], "converting a rounded value"); sym_assert(same(p[i], e[i]), "the rounded value remains available"); observe("r", o[i]); }
        drop(r); drop(q); drop(a);
    }
    sym_reach("end");
}
// ((M) S) -> D chains keep the intermediate truncation
template <typename S, typename M, typename D> static void run_chain() {
    const int N = 4; S in[N];
    for (int i = 0; i < N; ++i) { in[i] = sym<S>("a"); sym_assume(castable<S, M>(in[i])); M m = (M) in[i]; sym_assume(castable<M, D>(m)); }
    uint32_t a = arr(in, N), b = jit_var_cast(a, VT<M>::v, 0), c = jit_var_cast(b, VT<D>::v, 0);
    D o[N]; fetch(c, o, N);
    for (int i = 0; i < N; ++i) {
        int g = good<M, D>(o[i], (M) in[i]);
        if constexpr (VT<M>::flt && sizeof(M) == 2 && !std::is_same_v<S, bool>) g |= good<M, D>(o[i], (M) (float) in[i]);
        sym_assert(g, "chained conversions keep every step");
    }
    drop(c); drop(b); drop(a); sym_reach("end");
}
// params: source, target, mode (0 array, 1 literal, 2 reinterpret, 3 reinterpret literal, 4+op rounding)
template <typename S> static void run_d(int mode) {
    DISPATCH_ALL(sym_param(1), {
        using D = T;
        if (mode == 3) run_relit<S, D>(); else if (mode >= 4) run_round<S, D>(mode - 4); else run<S, D>(mode);
    });
}
ENTRY t_cast() { DISPATCH_ALL(sym_param(0), run_d<T>((int) sym_param(2))); }
template <typename S, typename M> static void chain_d() { DISPATCH_ALL(sym_param(2), { using D = T; run_chain<S, M, D>(); }); }
template <typename S> static void chain_m() {
    switch ((VarType) sym_param(1)) {
        case VarType::Bool: chain_d<S, bool>(); break; case VarType::Int8: chain_d<S, int8_t>(); break; case VarType::UInt16: chain_d<S, uint16_t>(); break;
        case VarType::Float16: chain_d<S, f16>(); break; case VarType::Float32: chain_d<S, float>(); break; case VarType::UInt32: chain_d<S, uint32_t>(); break; case VarType::Int64: chain_d<S, int64_t>(); break; default: break;
    }
}
ENTRY t_chain() {
    switch ((VarType) sym_param(0)) {
        case VarType::Int32: chain_m<int32_t>(); break; case VarType::UInt64: chain_m<uint64_t>(); break; case VarType::Float64: chain_m<double>(); break; case VarType::Int8: chain_m<int8_t>(); break; case VarType::Float32: chain_m<float>(); break; default: break;
    }
}
// reinterpretation between different sizes is refused and changes nothing
ENTRY t_badcast() {
    uint32_t in[4]; for (int i = 0; i < 4; ++i) in[i] = sym_u32("a");
    uint32_t a = arr(in, 4), ref = jit_var_ref(a);
    const VarType bad[] = { VarType::Bool, VarType::Int8, VarType::UInt16, VarType::Float16, VarType::Int64, VarType::Float64 };
    VarType t = bad[sym_choose("t", 6)];
    sym_assert(raises([&] { drop(jit_var_cast(a, t, 1)); }), "reinterpretation between different sizes is refused");
    sym_assert(jit_var_ref(a) == ref, "a refused operation keeps its operands");
    uint32_t o[4]; fetch(a, o, 4);
    for (int i = 0; i < 4; ++i) sym_assert(o[i] == in[i], "a refused operation keeps its operands");
    drop(a); sym_reach("end");
}
