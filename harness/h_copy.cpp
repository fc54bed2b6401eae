// Copies, element access, views, rearrangement; and histories of reads and
// writes against an eager model.
#include "h_mem.cpp"
extern "C" { extern uint32_t nt_order; }
static void settle() { // runs a kernel, so that deferred frees take effect
    uint32_t x[2] = { 1, 2 }, a = arr(x, 2), b = jit_var_add(a, a); jit_var_eval(b); jit_sync_thread(); drop(a); drop(b); jit_sync_thread();
}
// params: type, source form, action
enum { C_COPY, C_OPAQUE, C_WRITE, C_READ, C_SHRINK, C_TILE, C_REPEAT, C_REVERSE, C_FORCE, C_DATA, C_EVAL, C_RESIZE, C_MIGRATE, C_WRITE_BAD, C_READ_BAD, C_SHRINK_BAD, C_LITERAL, C_MEMCOPY, C_COUNTC };
static const int S_SHARED = 10, S_UNDEF = 11, S_USED = 12, S_VIEW = 13;
template <typename T> static void copyt() {
    int sf = (int) sym_param(1), act = (int) sym_param(2); const size_t N = 5; size_t n = (sf == S_LIT || sf == S_ONE) ? 1 : N;
    T src[N], o[40], e[40]; uint32_t s, other = 0, used = 0;
    if (sf == S_SHARED) { s = make_source(S_ARR, src, N); other = jit_var_inc_ref(s); }
    else if (sf == S_USED) { s = make_source(S_ARR, src, N); used = addv<T>(s, 3); }
    else if (sf == S_UNDEF) s = jit_var_undefined(BK, VT<T>::v, N);
    else if (sf == S_VIEW) { T big[9]; uint32_t p = make_source(S_ARR, big, 9); s = jit_var_shrink(p, N); memcpy(src, big, sizeof(src)); drop(p); }
    else s = make_source(sf, src, N);
    if (sf == S_UNDEF && act != C_WRITE && act != C_READ_BAD && act != C_WRITE_BAD && act != C_SHRINK_BAD) {
        // contents are unspecified: only check the shape, and that nothing else is touched
        uint32_t r = 0; T t; int rv;
        switch (act) { case C_COPY: r = jit_var_copy(s); break; case C_OPAQUE: r = jit_var_copy_opaque(s); break; case C_READ: jit_var_read(s, 4, &t); break; case C_SHRINK: r = jit_var_shrink(s, 3); break;
            case C_REVERSE: r = jit_var_reverse(s); break; case C_FORCE: r = jit_var_schedule_force(s, &rv); break; case C_TILE: r = jit_var_tile(s, 2); break; case C_REPEAT: r = jit_var_repeat(s, 2); break; case C_EVAL: jit_var_eval(s); break; default: break; }
        drop(s); settle(); // a view must keep its memory alive
        T x[5]; for (int i = 0; i < 5; ++i) x[i] = fresh<T>("y", 1); uint32_t y = arr(x, 5);
        if (r) { size_t m = jit_var_size(r); sym_assert(m == (act == C_SHRINK ? 3u : act == C_TILE || act == C_REPEAT ? 10u : 5u), "the result has the right size"); T val = sym<T>("v"); if (act != C_TILE && act != C_REPEAT && act != C_REVERSE) { uint32_t w = jit_var_write(r, 2, &val); T got; jit_var_read(w, 2, &got); sym_assert(same(got, val), "a written element can be read back"); drop(w); } drop(r); }
        fetch(y, o, 5); for (int i = 0; i < 5; ++i) sym_assert(same(o[i], x[i]), "other arrays are not affected");
        drop(y); sym_reach("end"); return;
    }
    if (sf == S_UNDEF) for (size_t i = 0; i < N; ++i) src[i] = (T) 0;
    uint32_t r = 0; size_t m = n; uint32_t ref = jit_var_ref(s); T val = sym<T>("val"); uint32_t pos = 0; bool writes = false;
    for (size_t i = 0; i < n; ++i) e[i] = src[i];
    switch (act) {
        case C_COPY: r = jit_var_copy(s); sym_assert(r != s, "a copy is a new variable"); break;
        case C_OPAQUE: r = jit_var_copy_opaque(s); sym_assert(r != s && jit_var_state(r) == VarState::Evaluated, "an opaque copy has memory of its own"); break;
        case C_WRITE: pos = sym_choose("pos", (uint32_t) n); r = jit_var_write(s, pos, &val); e[pos] = val; writes = true; break;
        case C_READ: { pos = sym_choose("pos", (uint32_t) N); T t; jit_var_read(s, pos, &t); sym_assert(same(t, src[n == 1 ? 0 : pos]), "reading returns the addressed element"); observe("t", t); break; }
        case C_SHRINK: m = 1 + sym_choose("m", (uint32_t) n); r = jit_var_shrink(s, m); break;
        case C_TILE: { uint32_t k = 1 + sym_choose("k", 3); r = jit_var_tile(s, k); m = n * k; for (size_t i = 0; i < m; ++i) e[i] = src[i % n]; break; }
        case C_REPEAT: { uint32_t k = 1 + sym_choose("k", 3), mx = sym_choose("max", 3) * 4; r = jit_var_repeat(s, k, mx); m = n * k; if (mx && m > mx) m = mx; for (size_t i = 0; i < m; ++i) e[i] = src[i / k]; break; }
        case C_REVERSE: r = jit_var_reverse(s); for (size_t i = 0; i < n; ++i) e[i] = src[n - 1 - i]; break;
        case C_FORCE: { int rv = -1; r = jit_var_schedule_force(s, &rv); if (rv) jit_eval(); sym_assert(jit_var_state(r) == VarState::Evaluated, "a forced variable is evaluated"); break; }
        case C_DATA: { void *p = nullptr; r = jit_var_data(s, &p); jit_sync_thread(); sym_assert(p && !memcmp(p, src, n * sizeof(T)), "the data pointer gives access to all elements"); break; }
        case C_EVAL: jit_var_eval(s); break;
        case C_RESIZE: { m = n == 1 ? 3 : n; r = jit_var_resize(s, m); for (size_t i = 0; i < m; ++i) e[i] = src[n == 1 ? 0 : i]; break; }
        case C_MIGRATE: { uint32_t h = jit_var_migrate(s, JitBackend::None); jit_sync_thread(); sym_assert(jit_var_size(h) == n, "a migrated array keeps its size"); uint32_t b = jit_var_migrate(h, BK); drop(h); r = b; break; }
        case C_WRITE_BAD: sym_assert(raises([&] { r = jit_var_write(s, n + sym_choose("off", 2) * 4, &val); }), "writing past the end is refused"); break;
        case C_READ_BAD: { T t[2] = { val, val }; if (n > 1) sym_assert(raises([&] { jit_var_read(s, n + sym_choose("off", 2) * 4, t); }) && same(t[0], val), "reading past the end is refused"); break; }
        case C_SHRINK_BAD: sym_assert(raises([&] { r = jit_var_shrink(s, n + 1); }), "a view cannot be larger"); sym_assert(jit_var_shrink(s, 0) == 0, "a view of zero elements is empty"); break;
        case C_LITERAL: { r = jit_var_literal(BK, VT<T>::v, &src[0], 3, 1); m = 3; for (int i = 0; i < 3; ++i) e[i] = src[0]; break; }
        case C_MEMCOPY: { void *p = nullptr; uint32_t d = jit_var_data(s, &p); r = jit_var_mem_copy(BK, VT<T>::v, p, n, 0); drop(d); break; }
    }
    if (act == C_WRITE_BAD || act == C_READ_BAD || act == C_SHRINK_BAD) { sym_assert(r == 0, "refused"); m = 0; }
    if (r != s && !(writes && sf == S_MAP) && act != C_SHRINK && jit_var_state(s) == VarState::Evaluated && sf != S_VIEW) sym_assert(r == 0 || jit_var_ref(s) >= ref, "the operand is alive");
    // writes to the result must not reach the source, and vice versa
    if (r && act != C_WRITE && act != C_SHRINK && act != C_FORCE && act != C_DATA && act != C_RESIZE && !(act == C_MIGRATE)) {
        T w = sym<T>("w"); uint32_t wv = arr(&w, 1), z = lit<uint32_t>(0), t = lit<bool>(true), q = jit_var_scatter(r, wv, z, t, ReduceOp::Identity, ReduceMode::Auto);
        drop(r); r = q; e[0] = w; drop(wv); drop(z); drop(t);
        jit_var_eval(r);
    }
    if (act == C_RESIZE && r == s) { drop(s); s = 0; } // documented: resizes an otherwise unreferenced scalar in place
    if (r && sf != S_UNDEF && sym_choose("first", 2)) { fetch(r, o, m); for (size_t i = 0; i < m; ++i) sym_assert(same(o[i], e[i]), "the result has the expected elements"); }
    if (!s) {} else
    if (sf != S_UNDEF && !(writes && r == s) && !(writes && sf == S_VIEW)) { fetch(s, o, n); for (size_t i = 0; i < n; ++i) { sym_assert(same(o[i], src[i]), "the source keeps its contents"); } }
    if (other) { fetch(other, o, n); for (size_t i = 0; i < n; ++i) sym_assert(same(o[i], src[i]), "another reference keeps its contents"); }
    if (used) { fetch(used, o, n); for (size_t i = 0; i < n; ++i) sym_assert(same(o[i], addc(src[i], 3)), "an expression built earlier uses the old contents"); }
    if (s) drop(s);
    if (other) drop(other);
    if (used) drop(used);
    if (r) { settle();
        // fresh allocations must not disturb the result (e.g. a view of freed memory)
        T x[5]; for (int i = 0; i < 5; ++i) x[i] = (T) (i + 1); uint32_t y = arr(x, 5), y2 = arr(x, 5); jit_sync_thread();
        if (sf != S_UNDEF) { fetch(r, o, m); for (size_t i = 0; i < m; ++i) { sym_assert(same(o[i], e[i]), "the result has the expected elements"); observe("o", o[i]); } }
        else { fetch(r, o, m); sym_assert(same(o[pos], e[pos]), "the written element is there"); }
        drop(r); drop(y); drop(y2);
    }
    sym_reach("end");
}
ENTRY t_copy() { DISPATCH_ALL(sym_param(0), copyt<T>()); }
// ---- histories: step codes (some fixed by the job, the others chosen) ----------
static const uint32_t NSTEP = 16;
ENTRY t_hist() {
    const uint32_t N = 3; int len = (int) sym_param(0), fixed = (int) sym_param(1), init = (int) sym_param(5);
    uint32_t a0[N], b0[N], A[3][N], B[N], o[N]; // A[0]: a, A[1], A[2]: older handles
    for (uint32_t i = 0; i < N; ++i) { a0[i] = sym_u32("a"); b0[i] = sym_u32("b"); B[i] = b0[i]; A[0][i] = a0[i]; }
    uint32_t px[N] = { 2, 0, 1 }, pc[N] = { 1, 1, 2 }; bool pm[N] = { true, (bool) (sym_u8("m") & 1), true };
    uint32_t a, b, x = arr(px, N), xc = arr(pc, N), m = arr(pm, N), t = lit<bool>(true), old[2] = { 0, 0 }; int nold = 0;
    switch (init) {
        case 0: a = arr(a0, N); b = arr(b0, N); break;
        case 1: { for (uint32_t i = 0; i < N; ++i) A[0][i] = B[i] = 9; a = lit<uint32_t>(9, N); b = jit_var_inc_ref(a); break; }
        case 2: { uint32_t p = arr(a0, N), q = arr(b0, N), l = lit<uint32_t>(5); a = jit_var_add(p, l); b = jit_var_add(q, l); for (uint32_t i = 0; i < N; ++i) { A[0][i] = a0[i] + 5; B[i] = b0[i] + 5; } drop(p); drop(q); drop(l); break; }
        default: { a = arr(a0, N); b = jit_var_inc_ref(a); for (uint32_t i = 0; i < N; ++i) B[i] = a0[i]; }
    }
    auto set = [&](uint32_t &v, uint32_t n) { drop(v); v = n; };
    auto seta = [&](uint32_t n) { drop(a); a = n; };
    for (int s = 0; s < len; ++s) {
        uint32_t c = s < fixed ? (uint32_t) sym_param(2 + s) : sym_choose("step", NSTEP), T[N];
        switch (c) {
            case 0: jit_var_schedule(a); jit_var_schedule(b); jit_eval(); break;
            case 1: seta(jit_var_scatter(a, b, x, m, ReduceOp::Identity, ReduceMode::Auto)); for (uint32_t i = 0; i < N; ++i) A[0][px[i]] = choose(pm[i], B[i], A[0][px[i]]); break;
            case 2: set(b, jit_var_gather(a, x, m)); for (uint32_t i = 0; i < N; ++i) B[i] = choose(pm[i], A[0][px[i]], 0u); break;
            case 3: seta(jit_var_scatter(a, b, xc, m, ReduceOp::Add, ReduceMode::Auto)); for (uint32_t i = 0; i < N; ++i) A[0][pc[i]] += choose(pm[i], B[i], 0u); break;
            case 4: set(b, jit_var_add(a, b)); for (uint32_t i = 0; i < N; ++i) B[i] += A[0][i]; break;
            case 5: set(b, jit_var_inc_ref(a)); for (uint32_t i = 0; i < N; ++i) B[i] = A[0][i]; break;
            case 6: { uint32_t v = 42; seta(jit_var_write(a, 1, &v)); A[0][1] = 42; break; }
            case 7: seta(jit_var_copy(a)); break;
            case 8: { uint32_t r = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Add, a), q = jit_var_xor(b, r); drop(r); set(b, q); uint32_t u = A[0][0] + A[0][1] + A[0][2]; for (uint32_t i = 0; i < N; ++i) B[i] ^= u; break; }
            case 9: if (nold < 2) { old[nold] = jit_var_inc_ref(a); nold++; for (uint32_t i = 0; i < N; ++i) A[nold][i] = A[0][i]; } break;
            case 10: { uint32_t l = lit<uint32_t>(5), z = lit<uint32_t>(2); seta(jit_var_scatter(a, l, z, t, ReduceOp::Identity, ReduceMode::Auto)); drop(l); drop(z); A[0][2] = 5; break; }
            case 11: { uint32_t u = a; a = b; b = u; memcpy(T, B, sizeof(T)); memcpy(B, A[0], sizeof(T)); memcpy(A[0], T, sizeof(T)); break; }
            case 12: jit_var_schedule(b); break;
            case 13: set(b, jit_var_block_prefix_reduce(ReduceOp::Add, a, N, 0, 0)); B[0] = A[0][0]; B[1] = B[0] + A[0][1]; B[2] = B[1] + A[0][2]; break;
            case 14: { uint32_t v; jit_var_read(a, 2, &v); sym_assert(v == A[0][2], "a read sees all earlier writes"); break; }
            default: { uint32_t tgt = jit_var_inc_ref(a), r = jit_var_scatter_inc(&tgt, xc, t); drop(a); a = tgt; set(b, r); // old counts: first collision order unspecified, use the sum
                       uint32_t w = jit_var_reverse(b); set(b, w); for (uint32_t i = 0; i < N; ++i) B[i] = 0; B[0] = A[0][2]; // lane 2 (alone) is now first
                       uint32_t k = lit<uint32_t>(0), g = jit_var_gather(b, k, t), q = jit_var_repeat(g, N); drop(k); drop(g); set(b, q); B[1] = B[2] = B[0];
                       A[0][1] += 2; A[0][2] += 1; break; }
        }
    }
    // contents in an order that depends on the job
    uint32_t vs[4] = { a, b, old[0], old[1] }; const uint32_t *rs[4] = { A[0], B, A[1], A[2] }; bool rev = init & 1;
    for (int k = 0; k < 4; ++k) { int q = rev ? 3 - k : k; if (!vs[q]) continue; fetch(vs[q], o, N); for (uint32_t i = 0; i < N; ++i) { sym_assert(o[i] == rs[q][i], q < 2 ? "reads and writes take effect in program order" : "an older handle keeps the contents it had"); sym_observe("o", o[i]); } }
    drop(a); drop(b); for (uint32_t v : old) if (v) drop(v);
    drop(x); drop(xc); drop(m); drop(t);
    sym_reach("end");
}
