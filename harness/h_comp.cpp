// Composite expressions and value numbering: whatever the tracer shares,
// rewrites or reuses, every variable keeps the value of its own expression.
#include "h_util.h"
template <typename T> static T neg_(T v) { if constexpr (VT<T>::flt) { using U = uint_of<T>; return bits<T>((U) (bits<U>(v) ^ (U) ~(U) (((U) -1) >> 1))); } else { using U = uint_of<T>; return (T) (U) (0 - (U) v); } }
template <typename T> static T abs_(T v) { if constexpr (VT<T>::flt) { using U = uint_of<T>; return bits<T>((U) (bits<U>(v) & (U) (((U) -1) >> 1))); } else if constexpr (std::is_signed_v<T>) return v < 0 ? neg_(v) : v; else return v; }
enum { NEG, ABS, NOT, UNARY, ADD = UNARY, SUB, MUL, MIN, MAX, SEL, SEQ, FMA, ARITH, AND = ARITH, OR, XOR, COUNT };
template <typename T> static T ref_fma(T a, T b, T c) { if constexpr (sizeof(T) == 2) return (T) __builtin_fmaf((float) a, (float) b, (float) c); else return __builtin_elementwise_fma(a, b, c); }
template <typename T> static __attribute__((noinline, optnone)) T mul_(T x, T y) { using U = uint_of<T>; using W = std::conditional_t<sizeof(U) == 8, uint64_t, uint32_t>; return (T) (U) ((W) (U) x * (W) (U) y); }
template <typename T> static __attribute__((noinline)) T sel_(bool c, T t, T f) { return c ? t : f; }
template <typename T> static T mm_(T x, T y, bool first, T z) { return sel_(is_nan(x) | is_nan(y), (T) __builtin_nan(""), sel_(first, x, sel_(x == y, z, y))); }
template <typename T> static T ref(int op, T x, T y) {
    using U = uint_of<T>;
    if constexpr (std::is_same_v<T, bool>) switch (op) { case NOT: return !x; case AND: return x & y; case OR: return x | y; case XOR: return x ^ y; case SEQ: return x == y ? x : y; default: return x; }
    else if constexpr (VT<T>::flt) switch (op) {
        case NEG: return neg_(x); case ABS: return abs_(x); case NOT: return x; case ADD: return (T) (x + y); case SUB: return (T) (x - y); case MUL: return (T) (x * y);
        case MIN: return mm_(x, y, x < y, bits<T>((U) (bits<U>(x) | bits<U>(y)))); case MAX: return mm_(x, y, y < x, bits<T>((U) (bits<U>(x) & bits<U>(y))));
        case SEL: return sel_(x < y, x, y); case SEQ: return sel_(x == y, x, y); case FMA: return ref_fma(x, y, x); default: return x;
    } else switch (op) {
        case NEG: return neg_(x); case ABS: return abs_(x); case NOT: return (T) ~x; case ADD: return (T) (U) ((U) x + (U) y); case SUB: return (T) (U) ((U) x - (U) y);
        case MUL: return mul_(x, y); case MIN: case SEL: return x < y ? x : y; case MAX: return x > y ? x : y; case SEQ: return y;
        case FMA: return (T) (U) ((U) mul_(x, y) + (U) x); case AND: return (T) (x & y); case OR: return (T) (x | y); case XOR: return (T) (x ^ y); default: return x;
    }
}
template <typename T> static uint32_t make(int op, uint32_t x, uint32_t y) {
    switch (op) {
        case NEG: return jit_var_neg(x); case ABS: return jit_var_abs(x); case NOT: return VT<T>::flt ? jit_var_inc_ref(x) : jit_var_not(x);
        case ADD: return jit_var_add(x, y); case SUB: return jit_var_sub(x, y); case MUL: return jit_var_mul(x, y); case MIN: return jit_var_min(x, y); case MAX: return jit_var_max(x, y);
        case SEL: { uint32_t m = jit_var_lt(x, y), r = jit_var_select(m, x, y); drop(m); return r; }
        case SEQ: { uint32_t m = jit_var_eq(x, y), r = jit_var_select(m, x, y); drop(m); return r; }
        case FMA: return jit_var_fma(x, y, x); case AND: return jit_var_and(x, y); case OR: return jit_var_or(x, y); default: return jit_var_xor(x, y);
    }
}
template <typename T> static bool valid(int op) {
    if constexpr (std::is_same_v<T, bool>) return op == NOT || op == SEQ || op >= ARITH;
    else if constexpr (VT<T>::flt) return op != NOT && op < ARITH;
    else return true;
}
template <typename T> static int equal(T a, T b) { if constexpr (VT<T>::flt) return same(a, b) | ((a == 0) & (b == 0)); else return a == b; }
// params: type, first operation
template <typename T> static void run() {
    T a[3], b[3], c = (T) 0;
    uint32_t k = sym_choose("lit", std::is_same_v<T, bool> ? 2 : 4);
    c = k == 0 ? (VT<T>::flt ? (T) 2 : (T) 0) : k == 1 ? (T) 1 : k == 2 ? (T) -1 : (T) 3;
    // one symbolic element, two concrete ones that detect confused lanes
    a[1] = sym<T>("a"); b[1] = sym<T>("b"); a[0] = (T) 5; b[0] = (T) 2; a[2] = (T) 7; b[2] = (T) 1;
    Vars v; uint32_t va = v(arr(a, 3)), vb = v(arr(b, 3)), vc = v(lit(c));
    int o1 = (int) sym_param(1), o2;
    struct X { T d[3]; uint32_t v; };
    X A, B, C; for (int i = 0; i < 3; ++i) { A.d[i] = a[i]; B.d[i] = b[i]; C.d[i] = c; } A.v = va; B.v = vb; C.v = vc;
    X *p = &A, *q = &B;
    if (o1 >= UNARY) switch (sym_choose("s1", 4)) { case 1: q = &A; break; case 2: q = &C; break; case 3: p = &C; q = &A; break; default: break; }
    X t; t.v = v(make<T>(o1, p->v, q->v)); for (int i = 0; i < 3; ++i) t.d[i] = ref<T>(o1, p->d[i], q->d[i]);
    o2 = (int) sym_choose("op", COUNT);
    if (!valid<T>(o2)) { sym_reach("end"); return; }
    p = &t; q = &A;
    if (o2 >= UNARY) switch (sym_choose("s2", 7)) { case 1: q = &B; break; case 2: q = &C; break; case 3: q = &t; break; case 4: p = &A; q = &t; break; case 5: p = &B; q = &t; break; case 6: p = &C; q = &t; break; default: break; }
    X u; u.v = v(make<T>(o2, p->v, q->v)); for (int i = 0; i < 3; ++i) u.d[i] = ref<T>(o2, p->d[i], q->d[i]);
    T o[3]; fetch(u.v, o, 3);
    for (int i = 0; i < 3; ++i) sym_assert(equal(o[i], u.d[i]), "a composite expression has the value of its steps");
    if (!VT<T>::flt) for (int i = 0; i < 3; ++i) observe("u", o[i]);
    sym_reach("end");
}
ENTRY t_comp() { DISPATCH_ALL(sym_param(0), run<T>()); }
// ------------------------------------------------------- value numbering
// Creates three nodes that differ in kind, type, value, size or operands,
// frees some of them, and reads the survivors.
struct N { uint32_t idx, kind, type, val, size; };
static const VarType lt[] = { VarType::UInt32, VarType::Int32, VarType::Float32, VarType::UInt64, VarType::Int16 };
static uint64_t litv(uint32_t t, uint32_t v) { // the same bit patterns in every type, where representable
    (void) t; return v == 0 ? 0 : v == 1 ? 1 : 0x3f800000;
}
static uint32_t mk(N &n, uint32_t a, uint32_t b) {
    switch (n.kind) {
        case 0: { uint64_t v = litv(n.type, n.val); return jit_var_literal(BK, lt[n.type], &v, n.size, 0); }
        case 1: return jit_var_counter(BK, n.size);
        case 2: return n.val & 1 ? jit_var_sub(b, a) : jit_var_sub(a, b);
        case 3: return n.val & 1 ? jit_var_add(a, b) : jit_var_mul(a, b);
        default: return n.val & 1 ? jit_var_cast(a, VarType::Float32, 1) : jit_var_cast(a, VarType::Float32, 0);
    }
}
static void pick(N &n, uint32_t i) {
    n.kind = sym_choose("kind", 5); n.type = n.val = 0; n.size = 1; (void) i;
    if (n.kind == 0) { n.type = sym_choose("type", 5); n.val = sym_choose("val", 3); n.size = sym_choose("size", 2) ? 3 : 1; }
    else if (n.kind == 1) n.size = 2 + sym_choose("size", 2);
    else n.val = sym_choose("val", 2);
}
static void verify(const N &n, const uint32_t *a, const uint32_t *b) {
    uint64_t raw_[3] = {}; uint32_t size = n.kind >= 2 ? 3 : n.size, es = 4;
    VarType ty = n.kind == 0 ? lt[n.type] : n.kind == 4 ? VarType::Float32 : VarType::UInt32;
    if (ty == VarType::UInt64) es = 8; else if (ty == VarType::Int16) es = 2;
    sym_assert(jit_var_type(n.idx) == ty && jit_var_size(n.idx) == size, "a variable has the type and size it was created with");
    void *p; uint32_t w = jit_var_data(n.idx, &p); jit_sync_thread();
    for (uint32_t i = 0; i < size; ++i) memcpy(&raw_[i], (uint8_t *) p + i * es, es);
    drop(w);
    for (uint32_t i = 0; i < size; ++i) {
        uint64_t e = 0; float f;
        switch (n.kind) {
            case 0: e = litv(n.type, n.val); if (es == 2) e &= 0xffff; break;
            case 1: e = i; break;
            case 2: e = n.val & 1 ? (uint32_t) (b[i] - a[i]) : (uint32_t) (a[i] - b[i]); break;
            case 3: e = n.val & 1 ? (uint32_t) (a[i] + b[i]) : (uint32_t) (a[i] * b[i]); break;
            case 4: if (n.val & 1) e = a[i]; else { f = (float) a[i]; uint32_t u; memcpy(&u, &f, 4); e = u; } break;
        }
        sym_assert(raw_[i] == e, "value numbering does not confuse different expressions");
    }
}
ENTRY t_lvn() { // params: kind of the first node, free mask, evaluation between, scope change
    uint32_t a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = sym_u32("a"); b[i] = sym_u32("b"); }
    uint32_t va = arr(a, 3), vb = arr(b, 3);
    N n[3]; uint32_t fm = (uint32_t) sym_param(1);
    pick(n[0], 0); if (n[0].kind != sym_param(0)) { sym_reach("end"); return; }
    pick(n[1], 1); n[2] = n[sym_param(2) & 1];
    for (int i = 0; i < 3; ++i) {
        n[i].idx = mk(n[i], va, vb);
        if ((fm >> i) & 1) { drop(n[i].idx); n[i].idx = 0; }
        if (sym_param(3) == i + 1) jit_new_scope(BK);
        if (sym_param(3) == 4 && n[0].idx && i == 0) jit_var_eval(n[0].idx);
    }
    for (int i = 0; i < 3; ++i) if (n[i].idx) verify(n[i], a, b);
    for (int i = 0; i < 3; ++i) if (n[i].idx) drop(n[i].idx);
    uint32_t o[3]; fetch(va, o, 3); for (int i = 0; i < 3; ++i) sym_assert(o[i] == a[i], "operands are unchanged");
    fetch(vb, o, 3); for (int i = 0; i < 3; ++i) sym_assert(o[i] == b[i], "operands are unchanged");
    drop(va); drop(vb);
    sym_reach("end");
}
// Literals with symbolic values: the same handle exactly when nothing differs
ENTRY t_lvnsym() {
    uint32_t x = sym_u32("x"), y = sym_u32("y");
    uint32_t i = jit_var_literal(BK, VarType::UInt32, &x, 1, 0), j = jit_var_literal(BK, VarType::UInt32, &y, 1, 0);
    float f; memcpy(&f, &x, 4); uint32_t k = jit_var_literal(BK, VarType::Float32, &f, 1, 0);
    sym_assert((i == j) ? x == y : 1, "value numbering does not confuse different literals");
    sym_assert(k != i && k != j, "value numbering does not confuse types");
    uint32_t o; fetch(i, &o, 1); sym_assert(o == x, "a literal has its value"); fetch(j, &o, 1); sym_assert(o == y, "a literal has its value");
    sym_observe("o", o);
    drop(i); drop(j); drop(k); sym_reach("end");
}
// Resizing: the result is the broadcast value, the operand and everything
// built from it before or afterwards keep their own size and value.
ENTRY t_resize() { // params: form of the operand
    uint32_t x = sym_u32("x"), y = sym_u32("y");
    uint32_t a = arr(&x, 1), b = arr(&y, 1);
    uint32_t form = (uint32_t) sym_param(0), steps = 2;
    auto build = [&](int k) -> uint32_t {
        switch (form) {
            case 0: return jit_var_add(a, b);
            case 1: return jit_var_sub(a, b);
            case 2: { uint32_t c = jit_var_not(a), r = jit_var_xor(c, b); drop(c); return r; }
            case 3: return counter(1);
            case 4: return lit<uint32_t>(7);
            case 5: { uint32_t m = jit_var_lt(a, b), r = jit_var_select(m, a, b); drop(m); return r; }
            case 6: { float f = 2; uint32_t l = lit(f), r = jit_var_cast(a, VarType::UInt32, 0); drop(l); return r; }
            default: return opaque<uint32_t>(7);
        }
    };
    uint32_t val = form == 0 ? x + y : form == 1 ? x - y : form == 2 ? ~x ^ y : form == 3 ? 0 : form == 4 || form == 7 ? 7 : form == 5 ? (x < y ? x : y) : x;
    uint32_t e[4], r[4], size[4]; int n = 0;
    uint32_t user = 0;
    for (uint32_t k = 0; k < steps; ++k) {
        e[n] = build((int) k); size[n] = 0;
        sym_assert(jit_var_size(e[n]) == 1, "a new scalar expression has one element");
        uint32_t ev = (uint32_t) sym_choose("event", 5);
        if (ev == 1 && !user) user = jit_var_mul(e[n], a);             // used elsewhere before the resize
        if (ev == 2) jit_var_inc_ref(e[n]);                           // second handle
        if (ev == 3) jit_var_eval(e[n]);
        size[n] = ev == 4 ? 1 : k ? 2 : 3;
        r[n] = jit_var_resize(e[n], size[n]);
        sym_assert(jit_var_size(r[n]) == size[n], "a resized variable has the requested size");
        if (ev == 2) { drop(e[n]); }
        drop(e[n]);
        ++n;
    }
    uint32_t f = build(9);
    sym_assert(jit_var_size(f) == 1, "a scalar expression that is rebuilt has one element");
    uint32_t o[3];
    for (int k = 0; k < n; ++k) { fetch(r[k], o, size[k]); for (uint32_t i = 0; i < size[k]; ++i) { sym_assert(o[i] == (val), "a resized variable is the broadcast value"); sym_observe("r", o[i]); } drop(r[k]); }
    fetch(f, o, 1); sym_assert(o[0] == val, "a rebuilt expression has its value"); drop(f);
    if (user) { fetch(user, o, 1); sym_assert(o[0] == val * x, "an expression built before the resize keeps its size and value"); drop(user); }
    fetch(a, o, 1); sym_assert(o[0] == x, "operands are unchanged"); drop(a); drop(b);
    sym_reach("end");
}
