// Local arrays (jit_array_*): histories of reads, writes and evaluations, older
// handles, arrays in loops and conditionals. The reference keeps one array per lane.
#include "h_ctl.cpp"
static const u32 L = 3;
template <typename T> struct Loc { T v[MAXN][L]; bool def[L]; u32 h; };
template <typename T> static Loc<T> dup(const Loc<T> &o) { Loc<T> r = o; jit_var_inc_ref(o.h); return r; }
template <typename T> static void put(Loc<T> &a, u32 off, u32 val, u32 mask) { u32 n = jit_array_write(a.h, off, val, mask); drop(a.h); a.h = n; }
/// Symbolic offsets; masked lanes may hold anything
static u32 offsets(u32 *k, u32 N, const bool *m) { for (u32 i = 0; i < N; ++i) { k[i] = sym_u32("off"); sym_assume(!m[i] | (k[i] < L)); } return arr(k, N); }
template <typename T> static void t_arr_impl() {
    const u32 N = (u32) sym_param(1), steps = (u32) sym_param(2); const int first = (int) sym_param(3), init = (int) sym_param(4);
    T x[MAXN], y[MAXN]; bool m[MAXN], all[MAXN]; const char *M = "a read returns what was last written to that element in that lane";
    for (u32 i = 0; i < N; ++i) { x[i] = sym<T>("x"); y[i] = sym<T>("y"); m[i] = sym<bool>("m"); all[i] = true; }
    u32 vx = arr(x, N), vy = arr(y, N), vm = arr(m, N), t = lit<bool>(true), kk[L]; for (u32 k = 0; k < L; ++k) kk[k] = lit<u32>(k);
    Loc<T> a, b; memset(&a, 0, sizeof(a));
    { u32 c = jit_array_create(BK, VT<T>::v, N, L);
      if (init == 0) { a.h = jit_array_init(c, vx); drop(c); for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) a.v[i][k] = x[i]; for (u32 k = 0; k < L; ++k) a.def[k] = true; }
      else { a.h = c; for (u32 k = 0; k < L; ++k) a.def[k] = false; } }
    sym_assert(jit_array_length(a.h) == L, "the length of an array is that given at its creation");
    b = dup(a);
    struct { u32 h; T e[MAXN]; } rd[5]; u32 nr = 0;
    for (u32 s = 0; s < steps; ++s) {
        u32 st = s == 0 ? (u32) first : sym_choose("step", 12); u32 k[MAXN]; T *v = s & 1 ? y : x; u32 vv = s & 1 ? vy : vx, c = s % L;
        switch (st) {
            case 0: put(a, kk[c], vv, t); for (u32 i = 0; i < N; ++i) a.v[i][c] = v[i]; a.def[c] = true; break;
            case 1: { u32 o = offsets(k, N, all); put(a, o, vv, t); for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < L; ++j) a.v[i][j] = choose(k[i] == j, v[i], a.v[i][j]); drop(o); break; }
            case 2: { u32 q = sym_u32("off"); sym_assume(q < L); u32 o = arr(&q, 1); put(a, o, vv, t); for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < L; ++j) a.v[i][j] = choose(q == j, v[i], a.v[i][j]); drop(o); break; }
            case 3: put(a, kk[c], vv, vm); for (u32 i = 0; i < N; ++i) a.v[i][c] = choose(m[i], v[i], a.v[i][c]); break;
            case 4: { u32 o = offsets(k, N, m); put(a, o, vv, vm); for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < L; ++j) a.v[i][j] = choose(m[i] & (k[i] == j), v[i], a.v[i][j]); drop(o); break; }
            case 5: { T l = (T) 1; u32 w = lit<T>(l); put(a, kk[c], w, t); for (u32 i = 0; i < N; ++i) a.v[i][c] = l; a.def[c] = true; drop(w); break; }
            case 6: drop(b.h); b = dup(a); break;
            case 7: { Loc<T> q = a; a = b; b = q; break; }
            case 8: jit_var_schedule(a.h); jit_eval(); break;
            case 9: { auto &r = rd[nr++]; if (!a.def[c]) { nr--; break; } r.h = jit_array_read(a.h, kk[c], t); for (u32 i = 0; i < N; ++i) r.e[i] = a.v[i][c]; break; }
            case 10: { auto &r = rd[nr++]; if (!a.def[0] || !a.def[1] || !a.def[2]) { nr--; break; } u32 o = offsets(k, N, m); r.h = jit_array_read(a.h, o, vm); for (u32 i = 0; i < N; ++i) { r.e[i] = (T) 0; for (u32 j = 0; j < L; ++j) r.e[i] = choose(m[i] & (k[i] == j), a.v[i][j], r.e[i]); } drop(o); break; }
            case 11: { u32 d = (c + 1) % L; if (!b.def[d]) break; u32 w = jit_array_read(b.h, kk[d], t); put(a, kk[c], w, t); for (u32 i = 0; i < N; ++i) a.v[i][c] = b.v[i][d]; a.def[c] = true; drop(w); break; }
        }
    }
    u32 w = sym_choose("final", 3), fin[2 * L]; Loc<T> *ab[2] = { &a, &b }; u32 so[MAXN], vo = 0; T se[2][MAXN]; u32 sh[2] = { 0, 0 };
    for (u32 q = 0; q < 2 * L; ++q) { Loc<T> &r = *ab[q / L]; fin[q] = r.def[q % L] ? jit_array_read(r.h, kk[q % L], t) : 0; }
    if (w == 2) { vo = offsets(so, N, all); for (int q = 0; q < 2; ++q) if (ab[q]->def[0] && ab[q]->def[1] && ab[q]->def[2]) { sh[q] = jit_array_read(ab[q]->h, vo, t); for (u32 i = 0; i < N; ++i) se[q][i] = choose(so[i] == 0, ab[q]->v[i][0], choose(so[i] == 1, ab[q]->v[i][1], ab[q]->v[i][2])); } }
    if (w) { for (u32 q = 0; q < nr; ++q) jit_var_schedule(rd[q].h); for (u32 f : fin) if (f) jit_var_schedule(f); for (u32 f : sh) if (f) jit_var_schedule(f); jit_eval(); }
    auto chk = [&](u32 h, const T *e) { const u32 n = (u32) jit_var_size(h); sym_assert(n == N, "a read has the size of its operands"); T o[MAXN]; fetch(h, o, N); for (u32 i = 0; i < N; ++i) { sym_assert(memcmp_same(o[i], e[i]), M); observe("o", o[i]); } drop(h); };
    for (u32 q = 2 * L; q-- > 0;) if (fin[q]) { T e[MAXN]; for (u32 i = 0; i < N; ++i) e[i] = ab[q / L]->v[i][q % L]; chk(fin[q], e); }
    for (u32 q = 0; q < nr; ++q) chk(rd[q].h, rd[q].e);
    for (int q = 0; q < 2; ++q) if (sh[q]) chk(sh[q], se[q]);
    if (vo) drop(vo); drop(a.h); drop(b.h); drop(vx); drop(vy); drop(vm); drop(t); for (u32 k : kk) drop(k);
    sym_reach("end");
}
// params: type, lanes, steps, first step, initial state
ENTRY t_arr() { DISPATCH_ALL(sym_param(0), t_arr_impl<T>()); }
// params: scenario, lanes
ENTRY t_arr_ctl() {
    int sc = (int) sym_param(0); const u32 N = (u32) sym_param(1); u32 x[MAXN], y[MAXN], e[MAXN]; bool c[MAXN];
    const char *M = "arrays follow the control flow of each lane";
    for (u32 i = 0; i < N; ++i) { x[i] = sym_u32("x"); y[i] = sym_u32("y"); c[i] = sym<bool>("c"); }
    u32 vx = arr(x, N), vy = arr(y, N), vc = arr(c, N), t = lit<bool>(true), kk[L], z = lit<u32>(0); for (u32 k = 0; k < L; ++k) kk[k] = lit<u32>(k);
    u32 cr = jit_array_create(BK, VarType::UInt32, N, L), a = jit_array_init(cr, vx); drop(cr); u32 A[MAXN][L]; for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) A[i][k] = x[i];
    if (sym_choose("base", 2)) { u32 n = jit_array_write(a, kk[0], vx, t); drop(a); a = n; }
    auto wr = [&](u32 h, u32 o, u32 v) { return jit_array_write(h, o, v, t); };
    auto all = [&](u32 h, u32 E[MAXN][L], const char *msg) { u32 r[L]; for (u32 k = 0; k < L; ++k) r[k] = jit_array_read(h, kk[k], t); if (sym_choose("together", 2)) { for (u32 k = 0; k < L; ++k) jit_var_schedule(r[k]); jit_eval(); } for (u32 k = 0; k < L; ++k) { for (u32 i = 0; i < N; ++i) e[i] = E[i][k]; sym_assert(jit_var_size(r[k]) == N, "a read has the size of its operands"); check(r[k], e, N, msg); drop(r[k]); } };
    switch (sc) {
        case 0: case 1: { // loop that fills an array; per-lane trip counts; 1: with optimization off
            u32 n[MAXN], vn = trips(n, N, L), s[3] = { aux(z), a, aux(vy) }; jit_set_flag(JitFlag::OptimizeLoops, sc == 0);
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { mv(s[1], wr(s[1], s[0], s[2])); mv(s[2], addk(s[2], 3)); mv(s[0], addk(s[0], 1)); });
            a = s[1]; for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) A[i][k] = choose(k < n[i], y[i] + 3 * k, A[i][k]);
            { u32 w1 = wr(a, kk[0], kk[1]), w2 = wr(a, kk[1], kk[2]), B[MAXN][L]; for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) B[i][k] = k == 0 ? 1u : A[i][k]; all(w1, B, "older handles keep their contents"); for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) B[i][k] = k == 1 ? 2u : A[i][k]; all(w2, B, "older handles keep their contents"); drop(w1); drop(w2); }
            all(a, A, M); drop(s[0]); drop(s[2]); drop(vn); break;
        }
        case 2: { // loop that reads elements written before it
            u32 b = wr(a, kk[1], vy), n[MAXN], vn = trips(n, N, L), s[3] = { aux(z), b, aux(z) };
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 r = jit_array_read(s[1], s[0], t); mv(s[2], add(s[2], r)); drop(r); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(n[i] > 0, x[i], 0u); e[i] = choose(n[i] > 1, e[i] + y[i], e[i]); e[i] = choose(n[i] > 2, e[i] + x[i], e[i]); }
            check(s[2], e, N, M); for (u32 i = 0; i < N; ++i) A[i][1] = y[i]; all(s[1], A, M); for (u32 v : s) drop(v); drop(vn);
            for (u32 i = 0; i < N; ++i) A[i][1] = x[i]; all(a, A, "older handles keep their contents"); break;
        }
        case 3: case 4: { // conditional writes in one branch or both
            u32 r[2]; jcond(vc, false, 2, r, [&](u32 *o) { o[0] = wr(a, kk[0], vy); o[1] = addk(vx, 1); }, [&](u32 *o) { o[0] = sc == 3 ? aux(a) : wr(a, kk[2], vy); o[1] = aux(vy); });
            for (u32 i = 0; i < N; ++i) { A[i][0] = choose(c[i], y[i], x[i]); if (sc == 4) A[i][2] = choose(c[i], x[i], y[i]); }
            all(r[0], A, M); for (u32 i = 0; i < N; ++i) e[i] = choose(c[i], x[i] + 1, y[i]); check(r[1], e, N, M); drop(r[0]); drop(r[1]);
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) A[i][k] = x[i]; all(a, A, "older handles keep their contents"); break;
        }
        case 5: { // conditional with a scalar condition
            bool c0 = sym<bool>("c0"); u32 v0 = arr(&c0, 1), r[1]; jcond(v0, false, 1, r, [&](u32 *o) { o[0] = wr(a, kk[0], vy); }, [&](u32 *o) { o[0] = wr(a, kk[1], vy); });
            for (u32 i = 0; i < N; ++i) { A[i][0] = choose(c0, y[i], x[i]); A[i][1] = choose(c0, x[i], y[i]); } all(r[0], A, M); drop(r[0]); drop(v0); break;
        }
        case 6: { // conditional inside of a loop
            u32 n[MAXN], vn = trips(n, N, 2), s[2] = { aux(z), a };
            jloop(s, 2, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 r[1]; jcond(vc, true, 1, r, [&](u32 *o) { o[0] = wr(s[1], s[0], vy); }, [&](u32 *o) { u32 q = jit_array_read(s[1], kk[0], t), w = addk(q, 1); o[0] = wr(s[1], kk[2], w); drop(q); drop(w); }); mv(s[1], r[0]); mv(s[0], addk(s[0], 1)); });
            a = s[1]; for (u32 i = 0; i < N; ++i) for (u32 q = 0; q < 2; ++q) { bool on = q < n[i]; u32 w = A[i][0] + 1; A[i][q] = choose(on & c[i], y[i], A[i][q]); A[i][2] = choose(on & !c[i], w, A[i][2]); }
            all(a, A, M); drop(s[0]); drop(vn); break;
        }
        case 7: { // evaluated before and inside
            jit_var_schedule(a); jit_eval(); u32 n[MAXN], vn = trips(n, N, 2), s[2] = { aux(z), aux(a) };
            jloop(s, 2, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 q = jit_array_read(s[1], s[0], t), w = add(q, vy); mv(s[1], wr(s[1], kk[2], w)); drop(q); drop(w); mv(s[0], addk(s[0], 1)); });
            all(a, A, "older handles keep their contents"); for (u32 i = 0; i < N; ++i) A[i][2] = choose(n[i] > 0, x[i] + y[i], A[i][2]); jit_var_schedule(s[1]); jit_eval(); all(s[1], A, M); drop(s[0]); drop(s[1]); drop(vn); break;
        }
        case 8: { // scalar array: results take the size of offset, mask or value
            u32 p = sym_u32("p"), vp = arr(&p, 1), c1 = jit_array_create(BK, VarType::UInt32, 1, L), b = jit_array_init(c1, vp); drop(c1);
            u32 k[MAXN]; bool tr[MAXN]; for (u32 i = 0; i < N; ++i) tr[i] = true; u32 o = offsets(k, N, tr), r0 = jit_array_read(b, kk[0], vc), r1 = jit_array_read(b, o, t), b2 = wr(b, kk[1], vy), r2 = jit_array_read(b2, kk[1], t), b3 = jit_array_write(b, kk[2], kk[1], vc), r3 = jit_array_read(b3, kk[2], t);
            u32 r4 = jit_array_read(b2, o, vc);
            u32 g[MAXN]; for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], p, 0u); g[i] = p; }
            sym_assert(jit_var_size(r0) == N && jit_var_size(r1) == N && jit_var_size(r2) == N && jit_var_size(r3) == N, "a read has the size of its operands");
            check(r0, e, N, "masked lanes read zero"); check(r1, g, N, M); check(r2, y, N, M); for (u32 i = 0; i < N; ++i) { g[i] = choose(c[i], 1u, p); e[i] = choose(c[i], choose(k[i] == 1, y[i], p), 0u); } check(r3, g, N, M); check(r4, e, N, M);
            { // scalar array that is written under a scalar mask, evaluated, and accessed by all lanes
              bool g0 = sym<bool>("g"), pl = sym_choose("where", 2), um = sym_choose("mask", 2), tr3[MAXN]; u32 k0 = sym_u32("off"), vg = arr(&g0, 1), f[MAXN]; sym_assume(k0 < L); u32 vk = arr(&k0, 1);
              u32 b6 = jit_array_write(b, pl ? vk : kk[1], kk[2], um ? vg : t); jit_var_schedule(b6); jit_eval(); for (u32 i = 0; i < N; ++i) tr3[i] = true;
              u32 o6 = offsets(f, N, tr3), r6 = jit_array_read(b6, o6, t), b7 = wr(b6, o6, vy), r7 = jit_array_read(b7, kk[1], t), r8 = jit_array_read(b6, vk, t), at = pl ? k0 : 1;
              sym_assert(jit_var_size(r6) == N && jit_var_size(r7) == N && jit_var_size(r8) == 1, "a read has the size of its operands");
              for (u32 i = 0; i < N; ++i) e[i] = choose((!um | g0) & (f[i] == at), 2u, p); check(r6, e, N, M); for (u32 i = 0; i < N; ++i) e[i] = choose(f[i] == 1, y[i], choose((!um | g0) & (at == 1), 2u, p)); check(r7, e, N, M);
              e[0] = choose((!um | g0) & (k0 == at), 2u, p); check(r8, e, 1, M); for (u32 v : { vg, vk, b6, o6, r6, b7, r7, r8 }) drop(v); }
            u32 c5 = jit_array_create(BK, VarType::UInt32, 1, L), b5 = wr(c5, kk[1], vp), r5 = jit_array_read(b5, kk[1], vc); sym_assert(jit_var_size(r5) == N, "a read has the size of its operands"); for (u32 i = 0; i < N; ++i) e[i] = choose(c[i], p, 0u); check(r5, e, N, "masked lanes read zero"); drop(c5); drop(b5); drop(r5);
            for (u32 v : { r0, r1, r2, r3, r4, b, b2, b3, vp, o }) drop(v); break;
        }
        case 9: { // refusals
            u32 w = counter(N + 2), f = lit<float>(1.f), big = lit<u32>(L), mf = lit<bool>(false);
            sym_assert(raises([&] { jit_array_read(a, big, t); }), "a read outside of the array is refused"); sym_assert(raises([&] { jit_array_write(a, big, vx, t); }), "a write outside of the array is refused");
            sym_assert(raises([&] { jit_array_write(a, kk[0], f, t); }), "a write of another type is refused"); sym_assert(raises([&] { jit_array_read(a, f, t); }), "an offset of another type is refused");
            sym_assert(raises([&] { jit_array_read(a, kk[0], vx); }), "a mask of another type is refused"); if (N > 1) { sym_assert(raises([&] { jit_array_read(a, w, t); }), "incompatible sizes are refused"); sym_assert(raises([&] { jit_array_write(a, kk[0], w, t); }), "incompatible sizes are refused"); }
            sym_assert(raises([&] { jit_array_write(vx, kk[0], vy, t); }), "a target that is no array is refused"); sym_assert(raises([&] { jit_array_read(vx, kk[0], t); }), "a source that is no array is refused"); sym_assert(raises([&] { jit_var_add(a, vx); }), "arithmetic on arrays is refused");
            sym_assert(raises([&] { jit_array_create(BK, VarType::UInt32, 4, 0x10000); }), "an array that is too long is refused"); sym_assert(jit_array_create(BK, VarType::UInt32, 4, 0) == 0, "an empty array is 0");
            u32 b = jit_array_write(a, kk[0], vy, mf), r = jit_array_read(a, kk[0], mf); u32 q = add(r, vx); check(q, x, N, "fully masked reads are zero"); all(b, A, "fully masked writes change nothing");
            for (u32 v : { w, f, big, mf, b, r, q }) drop(v); all(a, A, "refused operations change nothing"); break;
        }
        case 10: { // dirty operands
            u32 tz[MAXN], T[MAXN]; for (u32 i = 0; i < N; ++i) tz[i] = T[i] = i; u32 tg = arr(tz, N), cn = counter(N), cr2 = jit_array_create(BK, VarType::UInt32, N, L);
            for (u32 i = 0; i < N; ++i) T[i] += x[i];
            jit_var_scatter(tg, vx, cn, t, ReduceOp::Add, ReduceMode::Direct); drop(tg);
            u32 form = sym_choose("form", 2), b;
            if (form == 0) b = jit_array_init(cr2, tg); else b = wr(a, kk[1], tg);
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) A[i][k] = form == 0 || k == 1 ? T[i] : x[i];
            all(b, A, "pending writes to an operand are completed first"); drop(b); drop(tg); drop(cn); drop(cr2); break;
        }
        case 11: { // branches that return unrelated arrays
            u32 cr2 = jit_array_create(BK, VarType::UInt32, N, L), b = jit_array_init(cr2, vy), r[2]; drop(cr2);
            jcond(vc, false, 2, r, [&](u32 *o) { o[0] = aux(a); o[1] = wr(b, kk[1], vx); }, [&](u32 *o) { o[0] = aux(b); o[1] = aux(a); });
            u32 B[MAXN][L]; for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) { B[i][k] = choose(c[i], k == 1 ? x[i] : y[i], x[i]); A[i][k] = choose(c[i], x[i], y[i]); }
            all(r[0], A, M); all(r[1], B, M); drop(r[0]); drop(r[1]); drop(b); break;
        }
        case 12: { // loop that exchanges two arrays
            u32 cr2 = jit_array_create(BK, VarType::UInt32, N, L), b = jit_array_init(cr2, vy), n[MAXN], vn = trips(n, N, 2), s[3] = { aux(z), aux(a), b }; drop(cr2);
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 q = s[1]; s[1] = s[2]; s[2] = q; mv(s[1], wr(s[1], kk[2], kk[1])); mv(s[0], addk(s[0], 1)); });
            u32 B[MAXN][L]; for (u32 i = 0; i < N; ++i) { for (u32 k = 0; k < L; ++k) { A[i][k] = x[i]; B[i][k] = y[i]; } for (u32 q = 0; q < 2; ++q) { bool on = q < n[i]; for (u32 k = 0; k < L; ++k) { u32 w = A[i][k]; A[i][k] = choose(on, k == 2 ? 1u : B[i][k], w); B[i][k] = choose(on, w, B[i][k]); } } }
            all(s[1], A, M); all(s[2], B, M); for (u32 v : s) drop(v); drop(vn); break;
        }
        case 13: { // selection between arrays
            u32 cr2 = jit_array_create(BK, VarType::UInt32, N, L), b = jit_array_init(cr2, vy), r; drop(cr2); mv(b, wr(b, kk[0], kk[2])); bool ev = sym_choose("evaluate", 2); if (ev) { jit_var_schedule(b); jit_eval(); }
            u32 w0 = wr(a, kk[0], kk[2]); r = jit_var_select(vc, a, b); u32 r2 = wr(r, kk[1], vx), r3 = wr(r, kk[1], kk[1]), B[MAXN][L];
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) { A[i][k] = choose(c[i], x[i], k == 0 ? 2u : y[i]); B[i][k] = k == 1 ? x[i] : A[i][k]; }
            all(r2, B, M); all(r, A, M); for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) { A[i][k] = x[i]; B[i][k] = k == 0 ? 2u : y[i]; } all(a, A, "older handles keep their contents"); all(b, B, "older handles keep their contents"); drop(b); drop(r); drop(r2); for (u32 i = 0; i < N; ++i) { for (u32 k = 0; k < L; ++k) A[i][k] = choose(c[i], x[i], k == 0 ? 2u : y[i]); A[i][1] = 1; } all(r3, A, M); drop(r3); for (u32 i = 0; i < N; ++i) { for (u32 k = 0; k < L; ++k) A[i][k] = x[i]; A[i][0] = 2; } all(w0, A, "older handles keep their contents"); drop(w0); break;
        }
        case 15: { // loop whose body reads an element before and after it is overwritten
            u32 n[MAXN], vn = trips(n, N, 2), s[3] = { aux(z), aux(a), aux(z) };
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 q0 = jit_array_read(s[1], kk[1], t), w = addk(q0, 1); mv(s[1], wr(s[1], kk[1], w)); u32 q1 = jit_array_read(s[1], kk[1], t), d = add(q0, q1); mv(s[2], add(s[2], d)); drop(q0); drop(w); drop(q1); drop(d); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(n[i] > 0, 2 * x[i] + 1, 0u); e[i] = choose(n[i] > 1, 4 * x[i] + 4, e[i]); A[i][1] = x[i] + n[i]; }
            check(s[2], e, N, M); all(s[1], A, M); for (u32 v : s) drop(v); drop(vn); break;
        }
        case 16: { // loop whose body uses an older handle after a write
            u32 n[MAXN], vn = trips(n, N, 2), s[3] = { aux(z), aux(a), aux(z) };
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 w = wr(s[1], kk[1], vy), q = jit_array_read(s[1], kk[1], t); mv(s[2], add(s[2], q)); drop(q); mv(s[1], w); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(n[i] > 0, x[i], 0u); e[i] = choose(n[i] > 1, x[i] + y[i], e[i]); A[i][1] = choose(n[i] > 0, y[i], x[i]); }
            check(s[2], e, N, M); all(s[1], A, M); for (u32 v : s) drop(v); drop(vn); break;
        }
        case 18: case 19: { // an index that starts out uniform and diverges; 19: as does the written value
            u32 n[MAXN], vn = trips(n, N, 2), s[3] = { aux(z), aux(a), aux(kk[1]) };
            jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 q = jit_var_sub(s[0], z), w = jit_var_select(vc, kk[1], kk[2]); mv(s[1], wr(s[1], s[2], sc == 19 ? s[2] : vy)); mv(s[2], jit_var_select(vc, kk[0], kk[2])); drop(q); drop(w); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) { u32 k1 = choose(c[i], 0u, 2u); A[i][1] = choose(n[i] > 0, sc == 19 ? 1u : y[i], A[i][1]); for (u32 k = 0; k < L; ++k) A[i][k] = choose((n[i] > 1) & (k == k1), sc == 19 ? k1 : y[i], A[i][k]); }
            all(s[1], A, M); for (u32 v : s) drop(v); drop(vn); break;
        }
        case 17: { // loop that leaves an older handle readable
            u32 n[MAXN], vn = trips(n, N, 2), s[2] = { aux(z), aux(a) };
            jloop(s, 2, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { mv(s[1], wr(s[1], s[0], vy)); mv(s[0], addk(s[0], 1)); });
            u32 q = jit_array_read(a, kk[1], t), r = jit_array_read(s[1], kk[1], t); jit_var_schedule(q); jit_var_schedule(r); jit_eval();
            for (u32 i = 0; i < N; ++i) e[i] = choose(n[i] > 1, y[i], x[i]); check(r, e, N, M); check(q, x, N, "older handles keep their contents"); drop(q); drop(r); drop(s[0]); drop(s[1]); drop(vn); break;
        }
        case 14: { // nested: a loop inside of a conditional
            u32 n[MAXN], vn = trips(n, N, 2), r[1];
            jcond(vc, false, 1, r, [&](u32 *o) { u32 s[2] = { aux(z), aux(a) }; jloop(s, 2, true, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { mv(s[1], wr(s[1], s[0], vy)); mv(s[0], addk(s[0], 1)); }); drop(s[0]); o[0] = s[1]; }, [&](u32 *o) { o[0] = aux(a); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < L; ++k) A[i][k] = choose(c[i] & (k < n[i]), y[i], x[i]);
            all(r[0], A, M); drop(r[0]); drop(vn); break;
        }
    }
    drop(a); drop(vx); drop(vy); drop(vc); drop(t); drop(z); for (u32 k : kk) drop(k);
    sym_reach("end");
}
