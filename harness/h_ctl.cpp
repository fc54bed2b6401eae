// Structured control flow: symbolic loops, conditionals, nesting, side effects
// inside of them. References execute the lanes one after the other.
#include "h_mem.cpp"
typedef uint32_t u32;
static u32 aux(u32 x) { return jit_var_inc_ref(x); }
// consuming arithmetic helpers: arguments are borrowed
static u32 add(u32 a, u32 b) { return jit_var_add(a, b); }
static u32 addk(u32 a, u32 k) { u32 l = lit<u32>(k), r = jit_var_add(a, l); drop(l); return r; }
static u32 xork(u32 a, u32 k) { u32 l = lit<u32>(k), r = jit_var_xor(a, l); drop(l); return r; }
static u32 ltk(u32 a, u32 k) { u32 l = lit<u32>(k), r = jit_var_lt(a, l); drop(l); return r; }
static u32 andk(u32 a, u32 k) { u32 l = lit<u32>(k), r = jit_var_and(a, l); drop(l); return r; }
static void mv(u32 &d, u32 n) { drop(d); d = n; }
/// Records a loop; s: state (owned references, replaced by the results)
template <typename C, typename B> static int jloop(u32 *s, int n, bool symbolic, C cond, B body) {
    u32 cp = jit_record_begin(BK, nullptr), in[8]; int rounds = 0, done;
    for (int i = 0; i < n; ++i) in[i] = s[i];
    u32 loop = jit_var_loop_start("loop", symbolic, (size_t) n, s);
    for (int i = 0; i < n; ++i) drop(in[i]);
    do {
        u32 c = cond(s), m = jit_var_mask_apply(c, (u32) jit_var_size(c)), lc = jit_var_loop_cond(loop, m), old[8];
        jit_var_mask_push(BK, m);
        body(s);
        jit_var_mask_pop(BK);
        for (int i = 0; i < n; ++i) old[i] = s[i];
        done = jit_var_loop_end(loop, lc, s, cp);
        for (int i = 0; i < n; ++i) drop(old[i]);
        drop(c); drop(m); drop(lc);
        rounds++;
    } while (!done);
    drop(loop);
    jit_record_end(BK, cp, 0);
    return rounds;
}
/// Records a conditional; out receives n owned references
template <typename T, typename F> static void jcond(u32 c, bool symbolic, int n, u32 *out, T tb, F fb) {
    u32 nc = jit_var_not(c), ct = jit_var_mask_apply(c, (u32) jit_var_size(c)), cf = jit_var_mask_apply(nc, (u32) jit_var_size(c)), a[8], b[8];
    u32 cp = jit_record_begin(BK, nullptr), st = jit_var_cond_start("cond", symbolic, ct, cf);
    jit_var_mask_push(BK, ct); tb(a); jit_var_mask_pop(BK);
    u32 h1 = jit_var_cond_append(st, a, (size_t) n);
    jit_var_mask_push(BK, cf); fb(b); jit_var_mask_pop(BK);
    u32 h2 = jit_var_cond_append(st, b, (size_t) n);
    jit_var_cond_end(st, out);
    for (int i = 0; i < n; ++i) { drop(a[i]); drop(b[i]); }
    drop(nc); drop(ct); drop(cf); drop(st); drop(h1); drop(h2);
    jit_record_end(BK, cp, 0);
}
static const u32 MAXN = 5, TRIPS = 3;
/// Symbolic trip counts in [0, TRIPS]
static u32 trips(u32 *n, u32 N, u32 max = TRIPS) { for (u32 i = 0; i < N; ++i) { n[i] = sym_u32("n"); sym_assume(n[i] <= max); } return arr(n, N); }
static void check(u32 v, const u32 *e, u32 N, const char *msg) { u32 o[16]; fetch(v, o, N); for (u32 i = 0; i < N; ++i) { sym_assert(o[i] == e[i], msg); sym_observe("o", o[i]); } }
static void scat_add(u32 &t, u32 v, u32 i, u32 m, ReduceOp op = ReduceOp::Add) { u32 r = jit_var_scatter(t, v, i, m, op, ReduceMode::Auto); mv(t, r); }
// params: scenario, optimize, lanes
ENTRY t_loop() {
    int sc = (int) sym_param(0); const u32 N = (u32) sym_param(2); u32 n[MAXN], x[MAXN], e[MAXN], f[MAXN], g[MAXN];
    jit_set_flag(JitFlag::OptimizeLoops, (int) sym_param(1));
    for (u32 i = 0; i < N; ++i) x[i] = e[i] = sym_u32("x");
    u32 vx = arr(x, N), vn = trips(n, N), t = lit<bool>(true); const char *M = "a loop computes what its body says for every lane";
    u32 z = lit<u32>(0);
    auto lt_n = [&](u32 *s) { return jit_var_lt(s[0], vn); };
    switch (sc) {
        case 0: { // arithmetic, external operands
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) { mv(s[1], xork(s[1], 0x55)); mv(s[1], add(s[1], s[0])); mv(s[1], add(s[1], vx)); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) e[i] = choose(k < n[i], (e[i] ^ 0x55) + k + x[i], e[i]);
            u32 first = sym_choose("first", 3);
            if (first == 1) jit_var_eval(s[0]); else if (first == 2) { jit_var_schedule(s[0]); jit_var_schedule(s[1]); jit_eval(); }
            check(s[1], e, N, M); check(s[0], n, N, M); drop(s[0]); drop(s[1]); break;
        }
        case 1: { // exchanged state variables
            u32 y[MAXN]; for (u32 i = 0; i < N; ++i) y[i] = f[i] = sym_u32("y");
            u32 s[3] = { aux(z), aux(vx), arr(y, N) };
            jloop(s, 3, false, lt_n, [&](u32 *s) { u32 a = s[1]; s[1] = s[2]; s[2] = addk(a, 1); drop(a); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) { bool c = k < n[i]; u32 a = e[i]; e[i] = choose(c, f[i], e[i]); f[i] = choose(c, a + 1, f[i]); }
            jit_var_schedule(s[1]); jit_var_schedule(s[2]); jit_eval();
            check(s[1], e, N, M); check(s[2], f, N, M); for (u32 v : s) drop(v); break;
        }
        case 2: { // invariants: unchanged, same literal, different literal, updated by an invariant
            u32 s[7] = { aux(z), lit<u32>(5), lit<u32>(123), lit<u32>(124), aux(vx), lit<u32>(6), lit<u32>(1) };
            int r = jloop(s, 7, false, lt_n, [&](u32 *s) { mv(s[2], lit<u32>(123)); mv(s[3], lit<u32>(100)); mv(s[5], add(s[5], s[4])); mv(s[6], add(s[6], s[1])); mv(s[0], addk(s[0], 1)); });
            sym_assert(r <= 2, "the body is recorded at most twice");
            u32 q[7][MAXN]; for (u32 i = 0; i < N; ++i) { q[0][i] = n[i]; q[1][i] = 5; q[2][i] = 123; q[3][i] = choose(n[i] > 0, 100u, 124u); q[4][i] = x[i]; q[5][i] = 6; q[6][i] = 1; }
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) { q[5][i] += choose(k < n[i], x[i], 0u); q[6][i] += choose(k < n[i], 5u, 0u); }
            for (int k = 0; k < 7; ++k) { if (jit_var_size(s[k]) == 1) check(s[k], q[k], 1, M); else check(s[k], q[k], N, M); }
            for (u32 v : s) drop(v);
            break;
        }
        case 3: { // a scalar accumulator takes the shape of the loop
            u32 s[3] = { aux(z), opaque<u32>(9), aux(vx) };
            jloop(s, 3, false, lt_n, [&](u32 *s) { mv(s[1], add(s[1], s[2])); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) { f[i] = 9; for (u32 k = 0; k < TRIPS; ++k) f[i] += choose(k < n[i], x[i], 0u); }
            check(s[1], f, N, M); check(s[2], x, N, M); for (u32 v : s) drop(v); break;
        }
        case 4: { // the same variable twice in the state
            u32 s[3] = { aux(z), aux(vx), aux(vx) };
            jloop(s, 3, false, lt_n, [&](u32 *s) { mv(s[1], addk(s[1], 3)); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < TRIPS; ++k) e[i] += choose(k < n[i], 3u, 0u);
            check(s[1], e, N, M); check(s[2], x, N, M); for (u32 v : s) drop(v); break;
        }
        case 5: case 6: case 7: { // scatter-add to i-th entry / fixed entry / scatter
            u32 tz[TRIPS + 1] = { 0, 0, 0, 0 }, T[TRIPS + 1] = { 0, 0, 0, 0 }, tg = arr(tz, TRIPS + 1), y[2]; bool none = sc == 6;
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) {
                if (sc == 5) scat_add(tg, s[1], s[0], t);
                else if (sc == 6) { u32 two = lit<u32>(2), k = lit<u32>(1); scat_add(tg, two, k, t); drop(two); drop(k); }
                else { u32 k = andk(s[0], 3), v = addk(s[0], 7); scat_add(tg, v, k, t, ReduceOp::Identity); drop(k); drop(v); }
                mv(s[1], addk(s[1], 1)); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) { bool c = k < n[i]; if (sc == 5) T[k] += choose(c, x[i] + k, 0u); else if (none) T[1] += choose(c, 2u, 0u); else T[k] = choose(c, k + 7, T[k]); e[i] += choose(c, 1u, 0u); }
            u32 first = sym_choose("first", 3); (void) y;
            if (first == 1) jit_var_eval(s[1]); else if (first == 2) { jit_var_schedule(s[0]); jit_var_schedule(s[1]); jit_var_schedule(tg); jit_eval(); }
            check(tg, T, TRIPS + 1, "side effects of a loop happen once per active iteration");
            check(s[1], e, N, M); check(s[0], n, N, M);
            check(tg, T, TRIPS + 1, "side effects of a loop happen only once");
            drop(tg); drop(s[0]); drop(s[1]); break;
        }
        case 8: { // reads inside, guarded by the loop condition, of an array with pending writes
            u32 d[TRIPS], D[TRIPS]; for (u32 i = 0; i < TRIPS; ++i) d[i] = D[i] = sym_u32("d");
            u32 tg = arr(d, TRIPS), k = lit<u32>(1), v = lit<u32>(77); scat_add(tg, v, k, t, ReduceOp::Identity); D[1] = 77; drop(k); drop(v);
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) { u32 q = jit_var_gather(tg, s[0], t); mv(s[1], jit_var_xor(s[1], q)); drop(q); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < TRIPS; ++k) e[i] ^= choose(k < n[i], D[k], 0u);
            check(s[1], e, N, M); check(tg, D, TRIPS, "earlier writes are kept"); drop(tg); drop(s[0]); drop(s[1]); break;
        }
        case 9: { // nested loops
            u32 m[MAXN]; for (u32 i = 0; i < N; ++i) { m[i] = sym_u32("m"); sym_assume((m[i] <= 2) & (n[i] <= 2)); } u32 vm = arr(m, N);
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) {
                u32 q[2] = { aux(z), aux(s[1]) };
                jloop(q, 2, true, [&](u32 *q) { return jit_var_lt(q[0], vm); }, [&](u32 *q) { mv(q[1], xork(q[1], 9)); mv(q[1], add(q[1], s[0])); mv(q[0], addk(q[0], 1)); });
                mv(s[1], add(q[1], q[0])); drop(q[0]); drop(q[1]); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < 2; ++k) { u32 y = e[i]; for (u32 l = 0; l < 2; ++l) y = choose(l < m[i], (y ^ 9) + k, y); y += m[i]; e[i] = choose(k < n[i], y, e[i]); }
            check(s[1], e, N, M); check(s[0], n, N, M); drop(vm); drop(s[0]); drop(s[1]); break;
        }
        case 10: { // two loops, the second uses the first one's results
            for (u32 i = 0; i < N; ++i) sym_assume(n[i] <= 2);
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) { mv(s[1], xork(s[1], 0x1f)); mv(s[0], addk(s[0], 1)); });
            u32 q[2] = { aux(z), aux(vx) }, lim = aux(s[0]);
            jloop(q, 2, false, [&](u32 *q) { return jit_var_lt(q[0], lim); }, [&](u32 *q) { mv(q[1], add(q[1], s[1])); mv(q[0], addk(q[0], 1)); });
            for (u32 i = 0; i < N; ++i) { for (u32 k = 0; k < 2; ++k) e[i] ^= choose(k < n[i], 0x1fu, 0u); f[i] = x[i]; for (u32 k = 0; k < 2; ++k) f[i] += choose(k < n[i], e[i], 0u); }
            u32 first = sym_choose("first", 2);
            if (first) { check(s[1], e, N, M); check(q[1], f, N, M); } else { check(q[1], f, N, M); check(s[1], e, N, M); }
            drop(lim); for (int i = 0; i < 2; ++i) { drop(s[i]); drop(q[i]); } break;
        }
        case 11: { // uniform loop, then used by an array expression
            u32 c = sym_u32("c"); sym_assume(c <= TRIPS); u32 vc = arr(&c, 1), y = sym_u32("y"), y0 = y;
            u32 s[2] = { aux(z), arr(&y0, 1) };
            jloop(s, 2, false, [&](u32 *s) { return jit_var_lt(s[0], vc); }, [&](u32 *s) { mv(s[1], add(s[1], s[0])); mv(s[1], xork(s[1], 3)); mv(s[0], addk(s[0], 1)); });
            sym_assert(jit_var_size(s[1]) == 1, "a loop over scalars is a scalar");
            u32 r = add(s[1], vx); for (u32 k = 0; k < TRIPS; ++k) y = choose(k < c, (y + k) ^ 3, y);
            for (u32 i = 0; i < N; ++i) f[i] = x[i] + y;
            if (sym_choose("first", 2)) check(s[1], &y, 1, M);
            check(r, f, N, M); drop(r); drop(vc); drop(s[0]); drop(s[1]); break;
        }
        case 12: { // conditions that are known in advance
            u32 form = sym_choose("form", 3); u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, [&](u32 *s) { return form == 0 ? lit<bool>(false) : form == 1 ? lit<bool>(false, N) : ltk(s[0], 2); }, [&](u32 *s) { mv(s[1], addk(s[1], 3)); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) e[i] = x[i] + (form == 2 ? 6 : 0);
            check(s[1], e, N, M); drop(s[0]); drop(s[1]); break;
        }
        case 13: { // the condition uses an invariant state variable and a boolean one
            bool b[MAXN]; for (u32 i = 0; i < N; ++i) b[i] = sym<bool>("b");
            u32 s[4] = { aux(z), aux(vn), arr(b, N), aux(vx) };
            jloop(s, 4, false, [&](u32 *s) { u32 l = jit_var_lt(s[0], s[1]), r = jit_var_and(l, s[2]); drop(l); return r; },
                  [&](u32 *s) { mv(s[3], add(s[3], s[1])); mv(s[0], addk(s[0], 1)); u32 q = andk(s[3], 1), o = lit<u32>(0); mv(s[2], jit_var_neq(q, o)); drop(q); drop(o); });
            bool a[MAXN]; for (u32 i = 0; i < N; ++i) { a[i] = b[i]; for (u32 k = 0; k < TRIPS; ++k) { bool c = a[i] & (k < n[i]); e[i] = choose(c, e[i] + n[i], e[i]); a[i] = choose<uint8_t>(c, e[i] & 1, a[i]); } }
            jit_var_schedule(s[2]); jit_var_schedule(s[3]); jit_eval();
            check(s[3], e, N, M); bool o[MAXN]; fetch(s[2], o, N); for (u32 i = 0; i < N; ++i) sym_assert(o[i] == a[i], M);
            for (u32 v : s) drop(v);
            break;
        }
        case 14: { // scatter into a target that is itself loop state
            u32 tz[TRIPS] = { 0, 0, 0 }, T[TRIPS] = { 0, 0, 0 }; u32 s[3] = { aux(z), aux(vx), arr(tz, TRIPS) };
            jloop(s, 3, false, lt_n, [&](u32 *s) { scat_add(s[2], s[1], s[0], t); mv(s[1], addk(s[1], 1)); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) { bool c = k < n[i]; T[k] += choose(c, x[i] + k, 0u); e[i] += choose(c, 1u, 0u); }
            check(s[2], T, TRIPS, "side effects of a loop happen once per active iteration"); check(s[1], e, N, M); for (u32 v : s) drop(v); break;
        }
        case 15: { // a failing body leaves everything as it was
            u32 tz[2] = { 4, 5 }, tg = arr(tz, 2), keep = tg, s[2] = { aux(z), aux(vx) }, cp = jit_record_begin(BK, nullptr), in[2] = { s[0], s[1] };
            u32 loop = jit_var_loop_start("loop", false, 2, s); drop(in[0]); drop(in[1]);
            u32 c = lt_n(s), m = jit_var_mask_apply(c, N), lc = jit_var_loop_cond(loop, m); jit_var_mask_push(BK, m); keep = aux(tg);
            u32 r = jit_var_scatter(tg, s[1], z, t, ReduceOp::Add, ReduceMode::Auto);
            sym_assert(raises([&] { jit_var_eval(s[1]); }) , "evaluating a symbolic variable inside a loop is refused");
            jit_var_mask_pop(BK); jit_record_end(BK, cp, 1);
            drop(r); drop(s[0]); drop(s[1]); drop(c); drop(m); drop(lc); drop(loop);
            u32 y = addk(vx, 1); for (u32 i = 0; i < N; ++i) e[i] = x[i] + 1; check(y, e, N, "later computation is not affected by an abandoned loop"); drop(y);
            check(keep, tz, 2, "side effects of an abandoned loop are discarded"); drop(keep); drop(tg); break;
        }
        case 16: { // conditional inside a loop, with side effects in both branches
            u32 T[2] = { 0, 0 }, tz[2] = { 0, 0 }, tg = arr(tz, 2), one = lit<u32>(1); for (u32 i = 0; i < N; ++i) sym_assume(n[i] <= 2);
            u32 s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) {
                u32 c = ltk(s[1], 100), r[1];
                jcond(c, true, 1, r, [&](u32 *o) { o[0] = addk(s[1], 60); scat_add(tg, one, z, t); }, [&](u32 *o) { o[0] = xork(s[1], 0xff); scat_add(tg, one, one, t); });
                drop(c); mv(s[1], r[0]); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < 2; ++k) { bool a = k < n[i], c = e[i] < 100; T[0] += (u32) (a & c); T[1] += (u32) (a & !c); e[i] = choose(a, choose(c, e[i] + 60, e[i] ^ 0xff), e[i]); }
            check(s[1], e, N, M); check(tg, T, 2, "side effects respect the conditions around them"); drop(one); drop(tg); drop(s[0]); drop(s[1]); break;
        }
        case 17: { // only some results are used
            u32 y[MAXN]; for (u32 i = 0; i < N; ++i) { y[i] = f[i] = sym_u32("y"); g[i] = 0; }
            u32 s[4] = { aux(z), aux(vx), arr(y, N), aux(z) };
            jloop(s, 4, false, lt_n, [&](u32 *s) { mv(s[3], add(s[3], s[1])); mv(s[1], xork(s[1], 5)); mv(s[2], addk(s[2], 2)); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < TRIPS; ++k) for (u32 i = 0; i < N; ++i) { bool c = k < n[i]; g[i] += choose(c, e[i], 0u); e[i] ^= choose(c, 5u, 0u); f[i] += choose(c, 2u, 0u); }
            u32 w = sym_choose("which", 3); drop(s[0]); s[0] = 0;
            const u32 *rs[3] = { e, f, g }; for (u32 k = 0; k < 3; ++k) if (k != w) { drop(s[k + 1]); s[k + 1] = 0; }
            check(s[w + 1], rs[w], N, M); drop(s[w + 1]); break;
        }
        case 18: { // a counter and lane-dependent loads captured from outside
            u32 c = counter(N), s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) { u32 c2 = counter(N), q = jit_var_gather(vx, c, t); mv(s[1], add(s[1], c2)); mv(s[1], jit_var_xor(s[1], q)); drop(c2); drop(q); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < TRIPS; ++k) e[i] = choose(k < n[i], (e[i] + i) ^ x[i], e[i]);
            check(s[1], e, N, M); drop(c); drop(s[0]); drop(s[1]); break;
        }
        case 19: { // incompatible state is refused, everything remains usable
            u32 form = sym_choose("form", 4), cp = jit_record_begin(BK, nullptr), s[2] = { aux(z), form == 0 ? 0 : aux(vx) }; bool ok = true;
            if (form == 0) ok = raises([&] { jit_var_loop_start("l", false, 2, s); });
            else if (form == 1) ok = raises([&] { jit_var_loop_start("l", false, 0, s); });
            else { u32 in[2] = { s[0], s[1] }, loop = jit_var_loop_start("l", false, 2, s); drop(in[0]); drop(in[1]);
                   if (form == 2) ok = raises([&] { jit_var_loop_cond(loop, s[0]); });
                   else { u32 c = lt_n(s), m = jit_var_mask_apply(c, N), lc = jit_var_loop_cond(loop, m), w = counter(N + 2); mv(s[1], addk(w, 1)); mv(s[0], addk(s[0], 1)); drop(w); u32 old[2] = { s[0], s[1] };
                          ok = raises([&] { while (!jit_var_loop_end(loop, lc, s, cp)) ; }); drop(c); drop(m); drop(lc); s[0] = old[0]; s[1] = old[1]; }
                   drop(loop); }
            sym_assert(ok, "an inconsistent loop is refused"); jit_record_end(BK, cp, 1); drop(s[0]); drop(s[1]);
            u32 y = addk(vx, 1); for (u32 i = 0; i < N; ++i) e[i] = x[i] + 1; check(y, e, N, "later computation is not affected"); drop(y); break;
        }
        case 20: { // a nested loop whose outer state feeds both, with a side effect inside
            for (u32 i = 0; i < N; ++i) sym_assume(n[i] <= 2); u32 T[2] = { 0, 0 }, tz[2] = { 0, 0 }, tg = arr(tz, 2), s[2] = { aux(z), aux(vx) };
            jloop(s, 2, false, lt_n, [&](u32 *s) {
                u32 q[1] = { aux(z) };
                jloop(q, 1, true, [&](u32 *q) { return jit_var_lt(q[0], s[0]); }, [&](u32 *q) { scat_add(tg, s[1], q[0], t); mv(q[0], addk(q[0], 1)); });
                drop(q[0]); mv(s[1], addk(s[1], 1)); mv(s[0], addk(s[0], 1)); });
            for (u32 i = 0; i < N; ++i) for (u32 k = 0; k < 2; ++k) { for (u32 l = 0; l < k; ++l) T[l] += choose(k < n[i], e[i], 0u); e[i] += choose(k < n[i], 1u, 0u); }
            check(tg, T, 2, "side effects respect the loops around them"); check(s[1], e, N, M); drop(tg); drop(s[0]); drop(s[1]); break;
        }
    }
    drop(vx); drop(vn); drop(t); drop(z);
    sym_reach("end");
}
// state variables of every type; params: type, optimize
template <typename T> static void loop_type() {
    const u32 N = 3; T x[N], y[N], e[N], o[N]; u32 n[N]; jit_set_flag(JitFlag::OptimizeLoops, (int) sym_param(1));
    for (u32 i = 0; i < N; ++i) { x[i] = e[i] = sym<T>("x"); y[i] = sym<T>("y"); }
    u32 vn = trips(n, N, 2), vy = arr(y, N), s[3] = { lit<u32>(0), arr(x, N), aux(vy) };
    jloop(s, 3, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 q = s[1]; s[1] = addv<T>(s[2], 1); s[2] = q; mv(s[0], addk(s[0], 1)); });
    for (u32 k = 0; k < 2; ++k) for (u32 i = 0; i < N; ++i) { bool c = k < n[i]; T q = e[i]; e[i] = choose(c, addc(y[i], 1), e[i]); y[i] = choose(c, q, y[i]); }
    jit_var_schedule(s[1]); jit_var_schedule(s[2]); jit_eval();
    fetch(s[1], o, N); for (u32 i = 0; i < N; ++i) { sym_assert(same(o[i], e[i]), "a loop computes what its body says for every lane"); observe("o", o[i]); }
    fetch(s[2], o, N); for (u32 i = 0; i < N; ++i) sym_assert(same(o[i], y[i]), "a loop computes what its body says for every lane");
    for (u32 v : s) drop(v);
    drop(vn); drop(vy); sym_reach("end");
}
ENTRY t_loop_type() { DISPATCH_ALL(sym_param(0), loop_type<T>()); }
// ---- conditionals: params scenario, condition form, lanes ---------------------
enum { C_ARRAY, C_SCALAR, C_TRUE, C_FALSE, C_COMPUTED, C_FORMS };
ENTRY t_cond() {
    int sc = (int) sym_param(0), cf = (int) sym_param(1); const u32 N = (u32) sym_param(2); u32 x[MAXN], y[MAXN], e[MAXN], f[MAXN]; bool c[MAXN];
    const char *M = "a conditional selects per lane between the results of its branches";
    for (u32 i = 0; i < N; ++i) { x[i] = sym_u32("x"); y[i] = sym_u32("y"); }
    u32 vx = arr(x, N), vy = arr(y, N), t = lit<bool>(true), z = lit<u32>(0), one = lit<u32>(1), vc;
    switch (cf) {
        case C_ARRAY: for (u32 i = 0; i < N; ++i) c[i] = sym<bool>("c"); vc = arr(c, N); break;
        case C_SCALAR: c[0] = sym<bool>("c"); for (u32 i = 1; i < N; ++i) c[i] = c[0]; vc = arr(c, 1); break;
        case C_COMPUTED: for (u32 i = 0; i < N; ++i) c[i] = x[i] < y[i]; vc = jit_var_lt(vx, vy); break;
        default: for (u32 i = 0; i < N; ++i) c[i] = cf == C_TRUE; vc = lit<bool>(cf == C_TRUE, sym_choose("full", 2) ? N : 1);
    }
    u32 r[6] = { 0, 0, 0, 0, 0, 0 };
    switch (sc) {
        case 0: { // arithmetic
            jcond(vc, false, 2, r, [&](u32 *o) { o[0] = add(vx, vy); o[1] = xork(vx, 5); }, [&](u32 *o) { o[0] = xork(vy, 3); o[1] = addk(vy, 2); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i] + y[i], y[i] ^ 3); f[i] = choose(c[i], x[i] ^ 5, y[i] + 2); }
            u32 w = sym_choose("which", 3); if (w == 2) { jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval(); }
            if (w != 1) check(r[0], e, N, M);
            if (w != 0) check(r[1], f, N, M);
            break;
        }
        case 1: { // captured values, exchanged
            jcond(vc, false, 3, r, [&](u32 *o) { o[0] = aux(vx); o[1] = aux(vy); o[2] = aux(vx); }, [&](u32 *o) { o[0] = aux(vy); o[1] = aux(vx); o[2] = aux(vx); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i], y[i]); f[i] = choose(c[i], y[i], x[i]); }
            check(r[0], e, N, M); check(r[1], f, N, M); check(r[2], x, N, M); break;
        }
        case 2: { // literals
            jcond(vc, false, 3, r, [&](u32 *o) { o[0] = lit<u32>(4); o[1] = lit<u32>(7); o[2] = lit<u32>(1); }, [&](u32 *o) { o[0] = lit<u32>(4); o[1] = lit<u32>(8); o[2] = aux(vx); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], 7u, 8u); f[i] = choose(c[i], 1u, x[i]); }
            for (int k = 0; k < 3; ++k) { u32 u = add(r[k], z), w = add(u, vx); drop(u); drop(r[k]); r[k] = w; } // broadcast to all lanes
            for (u32 i = 0; i < N; ++i) { e[i] += x[i]; f[i] += x[i]; y[i] = x[i] + 4; }
            check(r[0], y, N, M); check(r[1], e, N, M); check(r[2], f, N, M); break;
        }
        case 3: { // shapes: scalar in one branch, array in the other
            u32 s = opaque<u32>(31);
            jcond(vc, false, 2, r, [&](u32 *o) { o[0] = aux(s); o[1] = addk(s, 1); }, [&](u32 *o) { o[0] = addk(vx, 1); o[1] = xork(s, 1); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], 31u, x[i] + 1); f[i] = choose(c[i], 32u, 30u) + x[i]; }
            { u32 u = add(r[0], z); drop(u); }
            u32 w = add(r[1], vx); drop(r[1]); r[1] = w; u32 q = jit_var_xor(r[0], z); u32 q2 = add(q, vx), q3 = jit_var_sub(q2, vx); drop(q); drop(q2); drop(r[0]); r[0] = q3;
            check(r[0], e, N, M); check(r[1], f, N, M); drop(s); break;
        }
        case 4: case 5: { // side effects in both branches, one of them lane independent
            u32 tz[3] = { 0, 0, 0 }, T[3] = { 0, 0, 0 }, tg = arr(tz, 3), five = lit<u32>(5), two = lit<u32>(2); bool per = sc == 4;
            jcond(vc, false, 1, r, [&](u32 *o) { scat_add(tg, per ? vx : five, z, t); o[0] = addk(vx, 1); }, [&](u32 *o) { scat_add(tg, per ? vy : two, one, t); scat_add(tg, vx, two, t); o[0] = aux(vy); });
            bool sc1 = !per && (cf == C_SCALAR || cf == C_TRUE || cf == C_FALSE); // a lane-independent write under a uniform condition: its lane count is that of the mask
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i] + 1, y[i]); T[0] += choose(c[i], per ? x[i] : 5u, 0u); T[1] += choose(!c[i], per ? y[i] : 2u, 0u); T[2] += choose(!c[i], x[i], 0u); }
            if (sym_choose("first", 2)) check(r[0], e, N, M);
            u32 o[3]; fetch(tg, o, 3); for (int k = sc1 ? 2 : 0; k < 3; ++k) sym_assert(o[k] == T[k], "side effects respect the condition and happen once");
            check(r[0], e, N, M); fetch(tg, o, 3); for (int k = sc1 ? 2 : 0; k < 3; ++k) sym_assert(o[k] == T[k], "side effects happen only once");
            drop(tg); drop(five); drop(two); break;
        }
        case 6: { // nested
            u32 vd = ltk(vx, 50);
            jcond(vc, false, 2, r, [&](u32 *o) { u32 q[2]; jcond(vd, true, 2, q, [&](u32 *p) { p[0] = addk(vx, 1); p[1] = aux(vy); }, [&](u32 *p) { p[0] = addk(vx, 2); p[1] = xork(vy, 3); }); o[0] = addk(q[0], 7); o[1] = q[1]; drop(q[0]); },
                  [&](u32 *o) { u32 q[1]; jcond(vd, true, 1, q, [&](u32 *p) { p[0] = aux(vy); }, [&](u32 *p) { p[0] = aux(vx); }); o[0] = q[0]; o[1] = xork(q[0], 1); });
            for (u32 i = 0; i < N; ++i) { bool d = x[i] < 50; u32 q = choose(d, y[i], x[i]); e[i] = choose(c[i], choose(d, x[i] + 8, x[i] + 9), q); f[i] = choose(c[i], choose(d, y[i], y[i] ^ 3), q ^ 1); }
            jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval(); check(r[0], e, N, M); check(r[1], f, N, M); drop(vd); break;
        }
        case 7: { // loop inside
            u32 n[MAXN], vn = trips(n, N, 2), s[2];
            jcond(vc, false, 2, r, [&](u32 *o) { s[0] = aux(z); s[1] = aux(vx); jloop(s, 2, true, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { mv(s[1], add(s[1], vy)); mv(s[0], addk(s[0], 1)); }); o[0] = s[1]; o[1] = s[0]; }, [&](u32 *o) { o[0] = aux(vy); o[1] = lit<u32>(9); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i] + y[i] * n[i], y[i]); for (u32 k = 0, q = x[i]; k < 1; ++k) { q = choose(n[i] > 0, q + y[i], q); q = choose(n[i] > 1, q + y[i], q); e[i] = choose(c[i], q, y[i]); } f[i] = choose(c[i], n[i], 9u); }
            jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval(); check(r[0], e, N, M); check(r[1], f, N, M); drop(vn); break;
        }
        case 8: { // guarded reads (indices are valid only in the right branch), pending writes to the source
            u32 d[2] = { sym_u32("d"), sym_u32("d") }, tg = arr(d, 2), k9 = lit<u32>(9); scat_add(tg, k9, one, t, ReduceOp::Identity); d[1] = 9; drop(k9);
            for (u32 i = 0; i < N; ++i) sym_assume(!c[i] | (x[i] < 2));
            jcond(vc, false, 1, r, [&](u32 *o) { u32 q = jit_var_gather(tg, vx, t); o[0] = addk(q, 1); drop(q); }, [&](u32 *o) { o[0] = aux(vy); });
            for (u32 i = 0; i < N; ++i) { u32 q = choose(x[i] == 0, d[0], d[1]); e[i] = choose(c[i], q + 1, y[i]); }
            check(r[0], e, N, M); check(tg, d, 2, "earlier writes are kept"); drop(tg); break;
        }
        case 9: { // results of one conditional drive the next
            u32 q[1]; jcond(vc, false, 1, r, [&](u32 *o) { o[0] = addk(vx, 1); }, [&](u32 *o) { o[0] = aux(vy); });
            u32 d = ltk(r[0], 10); jcond(d, false, 1, q, [&](u32 *o) { o[0] = add(r[0], vx); }, [&](u32 *o) { o[0] = jit_var_xor(r[0], vy); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i] + 1, y[i]); f[i] = choose(e[i] < 10, e[i] + x[i], e[i] ^ y[i]); }
            if (sym_choose("first", 2)) check(r[0], e, N, M);
            check(q[0], f, N, M); check(r[0], e, N, M); drop(q[0]); drop(d); break;
        }
        case 10: { // refusals: shapes, counts, uninitialized
            u32 form = sym_choose("form", 3), w = counter(N + 2);
            sym_assert(N == 1 || raises([&] {
                u32 nc = jit_var_not(vc), cp = jit_record_begin(BK, nullptr), st = jit_var_cond_start("c", false, vc, nc), a[2] = { vx, form == 2 ? 0 : vy }, b[2] = { form == 0 ? w : vx, vx }, h1 = jit_var_cond_append(st, a, 2), h2 = 0;
                drop(nc);
                struct G { u32 st, h1, &h2, cp; ~G() { drop(st); drop(h1); if (h2) drop(h2); jit_record_end(BK, cp, 1); } } guard { st, h1, h2, cp };
                h2 = jit_var_cond_append(st, b, form == 1 ? 1 : 2); u32 o[2]; jit_var_cond_end(st, o); drop(o[0]); drop(o[1]);
            }), "an inconsistent conditional is refused");
            u32 q = addk(vx, 1); for (u32 i = 0; i < N; ++i) e[i] = x[i] + 1; check(q, e, N, "later computation is not affected"); drop(q); drop(w); break;
        }
        case 12: { // results used by kernels of different sizes, evaluated together
            u32 a = opaque<u32>(40), b = opaque<u32>(50);
            jcond(vc, false, 3, r, [&](u32 *o) { o[0] = addk(a, 1); o[1] = aux(a); o[2] = addk(b, 2); }, [&](u32 *o) { o[0] = aux(b); o[1] = addk(b, 1); o[2] = xork(a, 3); });
            u32 w = add(r[0], vx), q = addk(r[1], 1); drop(r[0]); r[0] = 0; jit_var_schedule(w); jit_var_schedule(q); jit_eval();
            u32 g[MAXN]; for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], 41u, 50u) + x[i]; f[i] = choose(c[i], 41u, 52u); g[i] = choose(c[i], 52u, 43u); }
            check(w, e, N, M); check(q, f, (u32) jit_var_size(q), M); check(r[2], g, (u32) jit_var_size(r[2]), M); drop(w); drop(q); drop(a); drop(b); break;
        }
        case 13: { // operands with unfinished writes cannot be used while recording
            u32 form = sym_choose("form", 11); u32 tz[MAXN]; for (u32 i = 0; i < N; ++i) tz[i] = i; u32 tg = arr(tz, N), other = arr(tz, N);
            sym_assert(raises([&] {
                u32 nc = jit_var_not(vc), cp = jit_record_begin(BK, nullptr), st = jit_var_cond_start("c", false, vc, nc); drop(nc); jit_var_mask_push(BK, vc);
                struct G { u32 st, cp; ~G() { jit_var_mask_pop(BK); drop(st); jit_record_end(BK, cp, 1); } } guard { st, cp };
                scat_add(tg, vx, z, t); u32 o = 0;
                switch (form) {
                    case 0: o = jit_var_neg(tg); break; case 1: o = add(tg, vx); break; case 2: o = add(vx, tg); break;
                    case 3: o = jit_var_fma(tg, vx, vy); break; case 4: o = jit_var_fma(vx, tg, vy); break; case 5: o = jit_var_fma(vx, vy, tg); break;
                    case 6: { u32 k = ltk(vx, 50); struct H { u32 k; ~H() { drop(k); } } h { k }; o = jit_var_select(k, vx, tg); break; }
                    case 7: { u32 k = ltk(vx, 50); struct H { u32 k; ~H() { drop(k); } } h { k }; o = jit_var_select(k, tg, vx); break; }
                    case 8: o = jit_var_gather(other, tg, t); break;
                    case 9: o = jit_var_scatter(other, tg, z, t, ReduceOp::Add, ReduceMode::Direct); break;
                    case 10: o = jit_var_scatter(other, vx, tg, t, ReduceOp::Add, ReduceMode::Direct); break;
                }
                drop(o);
            }), "operands with writes that are still being recorded are refused");
            u32 q = addk(vx, 1); for (u32 i = 0; i < N; ++i) e[i] = x[i] + 1; check(q, e, N, "later computation is not affected"); drop(q);
            check(tg, tz, N, "an abandoned conditional writes nothing"); check(other, tz, N, "an abandoned conditional writes nothing"); drop(tg); drop(other); break;
        }
        case 11: { // a variable with pending writes passes through
            u32 tz[2] = { 3, 4 }, T[2] = { 3, 4 }, tg = arr(tz, 2);
            jcond(vc, false, 2, r, [&](u32 *o) { scat_add(tg, vx, z, t); o[0] = addk(vx, 1); o[1] = aux(tg); }, [&](u32 *o) { o[0] = aux(vy); o[1] = aux(tg); });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(c[i], x[i] + 1, y[i]); T[0] += choose(c[i], x[i], 0u); }
            check(r[1], T, 2, "side effects respect the condition and happen once"); check(r[0], e, N, M); drop(tg); break;
        }
    }
    for (u32 v : r) if (v) drop(v);
    drop(vx); drop(vy); drop(t); drop(z); drop(one); drop(vc);
    sym_reach("end");
}
template <typename T> static bool memcmp_same(T a, T b) { std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>> x, y; memcpy(&x, &a, sizeof(T)); memcpy(&y, &b, sizeof(T)); return x == y; }
template <typename T> static void cond_type() {
    const u32 N = 3; T x[N], y[N], o[N]; bool c[N]; for (u32 i = 0; i < N; ++i) { x[i] = sym<T>("x"); y[i] = sym<T>("y"); c[i] = sym<bool>("c"); }
    u32 vx = arr(x, N), vy = arr(y, N), vc = arr(c, N), r[2];
    jcond(vc, false, 2, r, [&](u32 *o) { o[0] = addv<T>(vx, 1); o[1] = aux(vx); }, [&](u32 *o) { o[0] = aux(vy); o[1] = addv<T>(vy, 1); });
    jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval();
    fetch(r[0], o, N); for (u32 i = 0; i < N; ++i) { sym_assert(same(o[i], choose(c[i], addc(x[i], 1), y[i])), "a conditional selects per lane between the results of its branches"); observe("o", o[i]); }
    fetch(r[1], o, N); for (u32 i = 0; i < N; ++i) sym_assert(same(o[i], choose(c[i], x[i], addc(y[i], 1))), "a conditional selects per lane between the results of its branches");
    // literals that differ in one bit only, or not at all
    T l1, l2; memset(&l1, 0, sizeof(T)); const u32 nb = std::is_same_v<T, bool> ? 1 : 8 * sizeof(T); u32 bit = sym_choose("bit", 4); memset(&l2, 0, sizeof(T)); u32 at = bit == 0 ? 0 : bit == 1 ? nb - 1 : nb / 2; if (bit < 3) ((uint8_t *) &l2)[at / 8] = (uint8_t) (1u << (at % 8));
    u32 q[2]; jcond(vc, false, 2, q, [&](u32 *o) { o[0] = lit<T>(l1); o[1] = lit<T>(l2); }, [&](u32 *o) { o[0] = lit<T>(l2); o[1] = lit<T>(l1); });
    for (int k = 0; k < 2; ++k) { const u32 n = (u32) jit_var_size(q[k]); fetch(q[k], o, n); for (u32 i = 0; i < N; ++i) sym_assert(memcmp_same(o[n == 1 ? 0 : i], choose(k ? !c[i] : c[i], l1, l2)), "a conditional selects per lane between the results of its branches"); drop(q[k]); }
    drop(vx); drop(vy); drop(vc); drop(r[0]); drop(r[1]); sym_reach("end");
}
ENTRY t_cond_type() { DISPATCH_ALL(sym_param(0), cond_type<T>()); }
