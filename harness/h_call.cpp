// Recorded indirect calls: every lane runs the callable of its instance.
#include "h_ctl.cpp"
static int objs[8]; // registered "instances"
static u32 ids[8];  // their IDs
static void reg(const char *variant, const char *domain, u32 n, u32 off = 0) { for (u32 i = 0; i < n; ++i) ids[off + i] = jit_registry_put(variant, domain, &objs[off + i]); }
static void unreg(u32 n, u32 off = 0) { for (u32 i = 0; i < n; ++i) jit_registry_remove(&objs[off + i]); }
/// body(j, in, out): callable of instance j; in[]: borrowed, out[]: owned
template <typename F> static bool jcall(const char *domain, bool symbolic, u32 self, u32 mask, const u32 *id, u32 ninst, u32 nin, const u32 *in, u32 nout, u32 *out, F body) {
    u32 cps[9], cin[8], rv[40], maxid = 0; bool ok = false;
    jit_new_scope(BK);
    u32 cp = jit_record_begin(BK, domain), scope = jit_new_scope(BK);
    if (cp == (u32) -1) return false;
    for (u32 i = 0; i < nin; ++i) cin[i] = jit_var_call_input(in[i]);
    u32 cm = jit_var_call_mask(BK); jit_var_mask_push(BK, cm); drop(cm);
    for (u32 j = 0; j < ninst; ++j) {
        jit_set_scope(BK, scope); cps[j] = jit_record_checkpoint(BK);
        u32 sv, si; jit_var_self(BK, &sv, &si); if (si) jit_var_inc_ref(si);
        jit_var_set_self(BK, id[j], 0);
        body(j, cin, &rv[j * nout]);
        jit_var_set_self(BK, sv, si); if (si) drop(si);
        if (id[j] > maxid) maxid = id[j];
    }
    jit_set_scope(BK, scope); cps[ninst] = jit_record_checkpoint(BK);
    jit_var_mask_pop(BK);
    jit_new_scope(BK);
    jit_var_call(domain, symbolic, self, mask, ninst, maxid, id, nin, cin, ninst * nout, rv, cps, out);
    for (u32 i = 0; i < nin; ++i) drop(cin[i]);
    for (u32 i = 0; i < ninst * nout; ++i) drop(rv[i]);
    jit_record_end(BK, cp, 0); ok = true;
    return ok;
}
/// Symbolic instance references: 0 (null) or one of n instances
static u32 make_self(u32 *s, u32 N, u32 n) { u32 v[MAXN]; for (u32 i = 0; i < N; ++i) { s[i] = sym_u32("self"); sym_assume(s[i] <= n); v[i] = 0; for (u32 j = 0; j < n; ++j) v[i] = choose(s[i] == j + 1, ids[j], v[i]); } return arr(v, N); }
// params: scenario, flags (1: optimize calls, 2: merge functions), lanes, mask form
ENTRY t_call() {
    int sc = (int) sym_param(0), fl = (int) sym_param(1), mf = (int) sym_param(3); const u32 N = (u32) sym_param(2); u32 x[MAXN], y[MAXN], e[MAXN], f[MAXN], s[MAXN], n = 2; bool m[MAXN];
    jit_set_flag(JitFlag::OptimizeCalls, fl & 1); jit_set_flag(JitFlag::MergeFunctions, (fl >> 1) & 1);
    const char *M = "every lane receives the results of its own instance"; const char *S = "side effects of a call happen once per calling lane";
    for (u32 i = 0; i < N; ++i) { x[i] = sym_u32("x"); y[i] = sym_u32("y"); m[i] = true; }
    if (sc == 9 || sc == 10 || sc == 19) n = 3;
    reg("v", "D", n); if (sc == 10) { jit_registry_remove(&objs[1]); } // a gap in the IDs
    u32 vx = arr(x, N), vy = arr(y, N), t = lit<bool>(true), z = lit<u32>(0), self, vm;
    if (sc == 10) { u32 v[MAXN]; for (u32 i = 0; i < N; ++i) { s[i] = sym_u32("self"); sym_assume((s[i] == 0) | (s[i] == 1) | (s[i] == 3)); v[i] = choose(s[i] == 1, ids[0], choose(s[i] == 3, ids[2], 0u)); } self = arr(v, N); }
    else if (sc == 11) { s[0] = sym_u32("self"); sym_assume(s[0] <= n); for (u32 i = 1; i < N; ++i) s[i] = s[0]; u32 v = choose(s[0] == 1, ids[0], choose(s[0] == 2, ids[1], 0u)); self = arr(&v, 1); }
    else if (sc == 12) { for (u32 i = 0; i < N; ++i) s[i] = 2; self = lit<u32>(ids[1]); }
    else self = make_self(s, N, n);
    switch (mf) { case 0: vm = lit<bool>(true); break; case 1: for (u32 i = 0; i < N; ++i) m[i] = sym<bool>("m"); vm = arr(m, N); break; default: m[0] = sym<bool>("m"); for (u32 i = 1; i < N; ++i) m[i] = m[0]; vm = arr(m, 1); }
    u32 in[4] = { vx, vy, 0, 0 }, r[6] = { 0, 0, 0, 0, 0, 0 }; auto act = [&](u32 i, u32 j) { return m[i] & (s[i] == j + 1); };
    for (u32 i = 0; i < N; ++i) e[i] = f[i] = 0;
    switch (sc) {
        case 0: { // different code
            jcall("D", false, self, vm, ids, 2, 2, in, 2, r, [&](u32 j, u32 *a, u32 *o) { if (j == 0) { o[0] = add(a[0], a[1]); o[1] = xork(a[0], 3); } else { o[0] = jit_var_xor(a[0], a[1]); o[1] = addk(a[1], 1); } });
            for (u32 i = 0; i < N; ++i) { e[i] = choose(act(i, 0), x[i] + y[i], choose(act(i, 1), x[i] ^ y[i], 0u)); f[i] = choose(act(i, 0), x[i] ^ 3, choose(act(i, 1), y[i] + 1, 0u)); }
            u32 w = sym_choose("which", 3); if (w == 2) { jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval(); }
            if (w != 1) check(r[0], e, N, M);
            if (w != 0) check(r[1], f, N, M);
            break;
        }
        case 1: { // same code, different captured data of several sizes
            u32 k[2] = { sym_u32("k"), sym_u32("k") }; uint8_t b[2] = { sym_u8("b"), sym_u8("b") }; uint64_t q[2] = { sym_u64("q"), sym_u64("q") }; uint16_t h[2] = { sym_u16("h"), sym_u16("h") };
            u32 vk[2], vb[2], vq[2], vh[2]; for (int j = 0; j < 2; ++j) { vk[j] = arr(&k[j], 1); vb[j] = arr(&b[j], 1); vq[j] = arr(&q[j], 1); vh[j] = arr(&h[j], 1); }
            jcall("D", false, self, vm, ids, 2, 2, in, 2, r, [&](u32 j, u32 *a, u32 *o) {
                u32 b32 = jit_var_cast(vb[j], VarType::UInt32, 0), q32 = jit_var_cast(vq[j], VarType::UInt32, 0), h32 = jit_var_cast(vh[j], VarType::UInt32, 0), t1 = add(a[0], vk[j]), t2 = jit_var_xor(t1, b32), t3 = jit_var_xor(q32, h32);
                o[0] = t2; o[1] = jit_var_xor(a[1], t3); drop(b32); drop(q32); drop(h32); drop(t1); drop(t3); });
            for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < 2; ++j) { e[i] = choose(act(i, j), (x[i] + k[j]) ^ b[j], e[i]); f[i] = choose(act(i, j), y[i] ^ (u32) q[j] ^ h[j], f[i]); }
            jit_var_schedule(r[0]); jit_var_schedule(r[1]); jit_eval(); check(r[0], e, N, M); check(r[1], f, N, M);
            for (int j = 0; j < 2; ++j) { drop(vk[j]); drop(vb[j]); drop(vq[j]); drop(vh[j]); } break;
        }
        case 2: { // uniform results: same literal, forwarded input, literal inputs
            u32 l = lit<u32>(11), in2[3] = { vx, l, t };
            jcall("D", false, self, vm, ids, 2, 3, in2, 4, r, [&](u32 j, u32 *a, u32 *o) { o[0] = lit<u32>(42); o[1] = aux(a[0]); o[2] = add(a[0], a[1]); o[3] = j ? lit<u32>(5) : addk(a[1], 2); });
            u32 g[MAXN], h[MAXN], k[MAXN]; for (u32 i = 0; i < N; ++i) { bool c = act(i, 0) | act(i, 1); e[i] = choose(c, 42u, 0u); f[i] = choose(c, x[i], 0u); g[i] = choose(c, x[i] + 11, 0u); h[i] = choose(act(i, 0), 13u, choose(act(i, 1), 5u, 0u)); k[i] = 0; }
            for (int q = 0; q < 4; ++q) jit_var_schedule(r[q]); jit_eval();
            check(r[0], e, N, M); check(r[1], f, N, M); check(r[2], g, N, M); check(r[3], h, N, M); drop(l); break;
        }
        case 3: { // side effects
            u32 tz[3] = { 0, 0, 0 }, T[3] = { 0, 0, 0 }, tg = arr(tz, 3), two = lit<u32>(2), one = lit<u32>(1);
            jcall("D", false, self, vm, ids, 2, 1, in, 1, r, [&](u32 j, u32 *a, u32 *o) { if (j == 0) scat_add(tg, a[0], z, t); else { scat_add(tg, one, one, t); scat_add(tg, a[0], two, t); } o[0] = addk(a[0], j); });
            for (u32 i = 0; i < N; ++i) { T[0] += choose(act(i, 0), x[i], 0u); T[1] += choose(act(i, 1), 1u, 0u); T[2] += choose(act(i, 1), x[i], 0u); e[i] = choose(act(i, 0), x[i], choose(act(i, 1), x[i] + 1, 0u)); }
            if (sym_choose("first", 2)) check(r[0], e, N, M);
            check(tg, T, 3, S); check(r[0], e, N, M); check(tg, T, 3, S); drop(tg); drop(two); drop(one); break;
        }
        case 4: { // reads guarded by the instance, from an array with pending writes
            u32 d[2] = { sym_u32("d"), sym_u32("d") }, tg = arr(d, 2), k9 = lit<u32>(9), one = lit<u32>(1); scat_add(tg, k9, one, t, ReduceOp::Identity); d[1] = 9; drop(k9); drop(one);
            jit_var_eval(tg);
            for (u32 i = 0; i < N; ++i) sym_assume(!act(i, 0) | (x[i] < 2));
            jcall("D", false, self, vm, ids, 2, 1, in, 1, r, [&](u32 j, u32 *a, u32 *o) { o[0] = j == 0 ? jit_var_gather(tg, a[0], t) : addk(a[0], 1); });
            for (u32 i = 0; i < N; ++i) e[i] = choose(act(i, 0), choose(x[i] == 0, d[0], d[1]), choose(act(i, 1), x[i] + 1, 0u));
            check(r[0], e, N, M); drop(tg); break;
        }
        case 5: { // calls in sequence, reusing code
            u32 q[1]; auto body = [&](u32 j, u32 *a, u32 *o) { o[0] = j == 0 ? addk(a[0], 5) : xork(a[0], 6); };
            jcall("D", false, self, vm, ids, 2, 1, in, 1, r, body); jcall("D", false, self, vm, ids, 2, 1, r, 1, q, body);
            for (u32 i = 0; i < N; ++i) { e[i] = choose(act(i, 0), x[i] + 5, choose(act(i, 1), x[i] ^ 6, 0u)); f[i] = choose(act(i, 0), e[i] + 5, choose(act(i, 1), e[i] ^ 6, 0u)); }
            if (sym_choose("first", 2)) check(r[0], e, N, M);
            check(q[0], f, N, M); check(r[0], e, N, M); drop(q[0]); break;
        }
        case 6: { // a call inside of a call
            reg("v", "E", 2, 4);
            u32 s2[MAXN], v2[MAXN]; for (u32 i = 0; i < N; ++i) { s2[i] = sym_u32("self2"); sym_assume(s2[i] <= 2); v2[i] = choose(s2[i] == 1, ids[4], choose(s2[i] == 2, ids[5], 0u)); }
            u32 vs2 = arr(v2, N), in2[2] = { vx, vs2 };
            jcall("D", false, self, vm, ids, 2, 2, in2, 1, r, [&](u32 j, u32 *a, u32 *o) {
                if (j == 1) { o[0] = addk(a[0], 100); return; }
                u32 q[1], inner[1] = { a[0] }; jcall("E", true, a[1], t, ids + 4, 2, 1, inner, 1, q, [&](u32 k, u32 *b, u32 *p) { p[0] = k ? addk(b[0], 1) : xork(b[0], 1); });
                o[0] = addk(q[0], 7); drop(q[0]); });
            for (u32 i = 0; i < N; ++i) e[i] = choose(act(i, 0), choose(s2[i] == 1, x[i] ^ 1, choose(s2[i] == 2, x[i] + 1, 0u)) + 7, choose(act(i, 1), x[i] + 100, 0u));
            check(r[0], e, N, M); drop(vs2); unreg(2, 4); break;
        }
        case 7: { // loop inside of a callable
            u32 nn[MAXN], vn = trips(nn, N, 2), in2[2] = { vx, vn };
            jcall("D", false, self, vm, ids, 2, 2, in2, 1, r, [&](u32 j, u32 *a, u32 *o) {
                if (j == 1) { o[0] = aux(a[1]); return; }
                u32 q[2] = { lit<u32>(0), aux(a[0]) }; jloop(q, 2, true, [&](u32 *q) { return jit_var_lt(q[0], a[1]); }, [&](u32 *q) { mv(q[1], addk(q[1], 3)); mv(q[1], xork(q[1], 1)); mv(q[0], addk(q[0], 1)); }); drop(q[0]); o[0] = q[1]; });
            for (u32 i = 0; i < N; ++i) { u32 q = x[i]; for (u32 k = 0; k < 2; ++k) q = choose(k < nn[i], (q + 3) ^ 1, q); e[i] = choose(act(i, 0), q, choose(act(i, 1), nn[i], 0u)); }
            check(r[0], e, N, M); drop(vn); break;
        }
        case 8: { // a call inside of a loop
            u32 nn[MAXN], vn = trips(nn, N, 2), q[2] = { aux(z), aux(vx) };
            jloop(q, 2, false, [&](u32 *q) { return jit_var_lt(q[0], vn); }, [&](u32 *q) { u32 w[1], in2[1] = { q[1] }; jcall("D", true, self, vm, ids, 2, 1, in2, 1, w, [&](u32 j, u32 *a, u32 *o) { o[0] = j ? addk(a[0], 1) : xork(a[0], 9); }); mv(q[1], w[0]); mv(q[0], addk(q[0], 1)); });
            for (u32 i = 0; i < N; ++i) { u32 w = x[i]; for (u32 k = 0; k < 2; ++k) w = choose(k < nn[i], choose(act(i, 0), w ^ 9, choose(act(i, 1), w + 1, 0u)), w); e[i] = w; }
            check(q[1], e, N, M); drop(q[0]); drop(q[1]); drop(vn); break;
        }
        case 9: case 10: { // three instances; IDs with a gap
            u32 id2[2] = { ids[0], ids[2] };
            auto body = [&](u32 j, u32 *a, u32 *o) { u32 k = sc == 10 ? j * 2 : j; o[0] = k == 0 ? addk(a[0], 5) : k == 1 ? xork(a[0], 6) : addk(a[0], 7); };
            if (sc == 9) jcall("D", false, self, vm, ids, 3, 1, in, 1, r, body); else jcall("D", false, self, vm, id2, 2, 1, in, 1, r, body);
            for (u32 i = 0; i < N; ++i) e[i] = choose(act(i, 0), x[i] + 5, choose(act(i, 1), x[i] ^ 6, choose(act(i, 2), x[i] + 7, 0u)));
            check(r[0], e, N, M); break;
        }
        case 11: case 12: { // uniform instance / literal instance
            jcall("D", false, self, vm, ids, 2, 1, in, 1, r, [&](u32 j, u32 *a, u32 *o) { o[0] = j == 0 ? addk(a[0], 5) : xork(a[0], 6); });
            for (u32 i = 0; i < N; ++i) e[i] = choose(act(i, 0), x[i] + 5, choose(act(i, 1), x[i] ^ 6, 0u));
            check(r[0], e, N, M); break;
        }
        case 13: { // masks and small types as inputs and results
            bool b[MAXN]; uint8_t c[MAXN]; f16 h[MAXN]; for (u32 i = 0; i < N; ++i) { b[i] = sym<bool>("b"); c[i] = sym<uint8_t>("c"); h[i] = sym<f16>("h"); }
            u32 vb = arr(b, N), vc = arr(c, N), vh = arr(h, N), in2[4] = { vb, vx, vc, vh };
            jcall("D", false, self, vm, ids, 2, 4, in2, 4, r, [&](u32 j, u32 *a, u32 *o) { o[0] = j ? jit_var_not(a[0]) : aux(a[0]); o[1] = j ? aux(a[2]) : jit_var_not(a[2]); o[2] = j ? jit_var_neg(a[3]) : aux(a[3]); o[3] = j ? jit_var_select(a[0], a[1], z) : aux(a[1]); });
            for (int q = 0; q < 4; ++q) jit_var_schedule(r[q]); jit_eval();
            bool ob[MAXN]; uint8_t oc[MAXN]; f16 oh[MAXN]; fetch(r[0], ob, N); fetch(r[1], oc, N); fetch(r[2], oh, N);
            for (u32 i = 0; i < N; ++i) {
                bool eb = (act(i, 0) & b[i]) | (act(i, 1) & !b[i]); uint8_t ec = choose<uint8_t>(act(i, 0), (uint8_t) ~c[i], choose<uint8_t>(act(i, 1), c[i], 0)); f16 eh = choose<f16>(act(i, 0), h[i], choose<f16>(act(i, 1), addc<f16>(h[i], 1), (f16) 0));
                sym_assert(ob[i] == eb, M); sym_assert(oc[i] == ec, M); sym_assert(same(oh[i], eh), M); e[i] = choose(act(i, 0), x[i], choose(act(i, 1), choose(b[i], x[i], 0u), 0u)); }
            check(r[3], e, N, M); drop(vb); drop(vc); drop(vh); break;
        }
        case 14: { // captured instance data changed after recording is refused or irrelevant; two calls of the same code with different captured data
            u32 k[2] = { 17, 23 }, vk[2] = { arr(&k[0], 1), arr(&k[1], 1) }, q[1];
            jcall("D", false, self, vm, ids, 2, 1, in, 1, r, [&](u32 j, u32 *a, u32 *o) { o[0] = add(a[0], vk[j]); }); jcall("D", false, self, vm, ids, 2, 1, in, 1, q, [&](u32 j, u32 *a, u32 *o) { o[0] = add(a[0], vk[1 - j]); });
            jit_var_schedule(r[0]); jit_var_schedule(q[0]); jit_eval();
            for (u32 i = 0; i < N; ++i) { e[i] = choose(act(i, 0), x[i] + 17, choose(act(i, 1), x[i] + 23, 0u)); f[i] = choose(act(i, 0), x[i] + 23, choose(act(i, 1), x[i] + 17, 0u)); }
            check(r[0], e, N, M); check(q[0], f, N, M); drop(q[0]); drop(vk[0]); drop(vk[1]); break;
        }
        case 15: { // refusals
            u32 form = sym_choose("form", 4); u32 w = arr(x, N);
            sym_assert(raises([&] {
                u32 cp = jit_record_begin(BK, "D"), cin = jit_var_call_input(vx), o1 = addk(cin, 1), o2 = form == 1 ? jit_var_cast(cin, VarType::Float32, 0) : aux(cin), cps[3]; cps[0] = cps[1] = cps[2] = jit_record_checkpoint(BK);
                struct G { u32 a, b, c, cp; ~G() { drop(a); drop(b); drop(c); jit_record_end(BK, cp, 1); } } guard { cin, o1, o2, cp };
                u32 rv[2] = { o1, form == 2 ? w : o2 }, out[2];
                jit_var_call("D", false, form == 0 ? vm : self, form == 3 ? vx : vm, 2, 2, ids, 1, &cin, 2, rv, cps, out); drop(out[0]);
            }), "an inconsistent call is refused"); drop(w);
            u32 q = addk(vx, 1); for (u32 i = 0; i < N; ++i) e[i] = x[i] + 1; check(q, e, N, "later computation is not affected"); drop(q); break;
        }
        case 16: { // getters
            u32 k[2] = { sym_u32("k"), sym_u32("k") }, v0 = arr(&k[0], 1), v[2] = { v0, lit<u32>(8) }, g = jit_var_call_getter(VarType::UInt32, 2, v, self, vm), w[2] = { 0, v0 }, h = jit_var_call_getter(VarType::UInt32, 2, w, self, vm); k[1] = 8;
            for (u32 i = 0; i < N; ++i) { e[i] = choose(act(i, 0), k[0], choose(act(i, 1), 8u, 0u)); f[i] = choose(act(i, 1), k[0], 0u); }
            jit_var_schedule(g); jit_var_schedule(h); jit_eval(); check(g, e, N, "a getter returns the value of the lane's instance"); check(h, f, N, "a getter returns the value of the lane's instance"); drop(g); drop(h); drop(v[0]); drop(v[1]); break;
        }
        case 17: { // getter in the same kernel as a call with captured data
            u32 k[2] = { sym_u32("k"), sym_u32("k") }, v[2] = { arr(&k[0], 1), arr(&k[1], 1) }, g = jit_var_call_getter(VarType::UInt32, 2, v, self, vm);
            u32 in2[2] = { vx, g };
            jcall("D", false, self, vm, ids, 2, 2, in2, 1, r, [&](u32 j, u32 *a, u32 *o) { u32 q = add(a[0], v[1 - j]); o[0] = jit_var_xor(q, a[1]); drop(q); });
            for (u32 i = 0; i < N; ++i) e[i] = choose(act(i, 0), (x[i] + k[1]) ^ k[0], choose(act(i, 1), (x[i] + k[0]) ^ k[1], 0u));
            check(r[0], e, N, M); drop(g); drop(v[0]); drop(v[1]); break;
        }
        case 19: { // three instances, results that some of them share
            jcall("D", false, self, vm, ids, 3, 1, in, 4, r, [&](u32 j, u32 *a, u32 *o) { o[0] = lit<u32>(j == 1 ? 5 : 4); o[1] = lit<u32>(j == 2 ? 5 : 4); o[2] = lit<u32>(j == 0 ? 5 : 4); o[3] = j == 1 ? addk(a[0], 1) : aux(a[0]); });
            u32 g[MAXN], h[MAXN]; for (u32 i = 0; i < N; ++i) { bool a = act(i, 0) | act(i, 1) | act(i, 2); e[i] = choose(a, choose(act(i, 1), 5u, 4u), 0u); f[i] = choose(a, choose(act(i, 2), 5u, 4u), 0u); g[i] = choose(a, choose(act(i, 0), 5u, 4u), 0u); h[i] = choose(a, choose(act(i, 1), x[i] + 1, x[i]), 0u); }
            for (int q = 0; q < 4; ++q) jit_var_schedule(r[q]); jit_eval();
            check(r[0], e, N, M); check(r[1], f, N, M); check(r[2], g, N, M); check(r[3], h, N, M); break;
        }
        case 20: { // 64-bit literals and captured values that only differ in their upper halves
            uint64_t k[2] = { sym_u64("k"), sym_u64("k") }; u32 vk[2] = { arr(&k[0], 1), arr(&k[1], 1) };
            jcall("D", false, self, vm, ids, 2, 1, in, 3, r, [&](u32 j, u32 *a, u32 *o) { o[0] = lit<uint64_t>(j ? 1ull << 40 : 2ull << 40); o[1] = aux(vk[j]); o[2] = aux(vk[0]); });
            for (int q = 0; q < 3; ++q) jit_var_schedule(r[q]); jit_eval(); uint64_t g[MAXN];
            for (int q = 0; q < 3; ++q) { fetch(r[q], g, N); for (u32 i = 0; i < N; ++i) { uint64_t a = q == 0 ? 2ull << 40 : k[0], b = q == 0 ? 1ull << 40 : q == 1 ? k[1] : k[0]; sym_assert(g[i] == choose<uint64_t>(act(i, 0), a, choose<uint64_t>(act(i, 1), b, 0)), M); } }
            drop(vk[0]); drop(vk[1]); break;
        }
        case 18: { // side effects of identical callables, captured targets
            u32 tz[2] = { 0, 0 }, T0[2] = { 0, 0 }, T1[2] = { 0, 0 }, t0 = arr(tz, 2), t1 = arr(tz, 2); uint8_t pad[4];  memcpy(pad, tz, 4);
            u32 in2[1] = { vx }; jcall("D", false, self, vm, ids, 2, 1, in2, 0, r, [&](u32 j, u32 *a, u32 *) { scat_add(j ? t1 : t0, a[0], z, t); });
            for (u32 i = 0; i < N; ++i) { T0[0] += choose(act(i, 0), x[i], 0u); T1[0] += choose(act(i, 1), x[i], 0u); }
            check(t0, T0, 2, S); check(t1, T1, 2, S); drop(t0); drop(t1); break;
        }
    }
    for (u32 v : r) if (v) drop(v);
    drop(vx); drop(vy); drop(t); drop(z); drop(self); drop(vm); if (sc == 10) { jit_registry_remove(&objs[0]); jit_registry_remove(&objs[2]); } else unreg(n);
    sym_reach("end");
}
