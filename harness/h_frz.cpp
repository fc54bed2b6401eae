// Frozen functions: a recording made with some inputs, replayed with others,
// returns what the function itself returns.
#include "h_call.cpp"
struct Case { u32 N; u32 in[4]; u32 nin; u32 x[4][8]; u32 len[4]; };
static const int MO = 4;
struct Ref { u32 n, len[MO]; u32 e[MO][16]; };
static int SC; static bool recording; static void *frz_extra;
static u32 captured, captured_ref[8]; // variable that is not an input
static u32 t1, k0;                    // literals
/// The function: borrowed inputs, owned outputs
static u32 fn(const u32 *a, u32 *o) {
    u32 N = (u32) jit_var_size(a[0]);
    switch (SC) {
        case 0: { u32 q = xork(a[0], 3); o[0] = add(q, a[1]); drop(q); return 1; }
        case 1: o[0] = add(a[0], a[1]); o[1] = jit_var_xor(a[0], a[1]); o[2] = jit_var_lt(a[0], a[1]); { u32 c = o[2], one = lit<u32>(1), z = lit<u32>(0); o[2] = jit_var_select(c, one, z); drop(c); drop(one); drop(z); } return 3;
        case 2: { u32 y = addk(a[0], 1); jit_var_eval(y); o[0] = jit_var_xor(y, a[0]); o[1] = y; return 2; }
        case 3: { u32 q = addk(a[0], 1); o[0] = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Add, q); drop(q); return 1; }
        case 4: { u32 q = addk(a[0], 1); o[0] = jit_var_block_prefix_reduce(ReduceOp::Add, q, N, (int) 1, 0); o[1] = jit_var_block_prefix_reduce(ReduceOp::Max, a[1], N, 0, 1); drop(q); return 2; }
        case 5: o[0] = addk(a[0], 1); o[1] = aux(a[0]); return 2;
        case 6: { u32 c = counter(N), r = xork(a[0], 6); o[0] = jit_var_scatter(a[1], r, c, t1, ReduceOp::Identity, ReduceMode::Auto); drop(r); drop(c); o[1] = addk(a[1], 5); return 2; }
        case 7: { u32 i = andk(a[0], 1); u32 one = lit<u32>(1); o[0] = jit_var_scatter(a[1], one, i, t1, ReduceOp::Add, ReduceMode::Auto); drop(one); drop(i); return 1; }
        case 8: { u32 i = andk(a[0], 1); o[0] = jit_var_gather(a[1], i, t1); drop(i); return 1; }
        case 9: { u32 w = jit_var_opaque_width(a[0]); o[0] = add(a[0], w); drop(w); return 1; }
        case 10: o[0] = addk(a[0], 1); o[1] = xork(a[1], 7); return 2;
        case 11: { u32 s[2] = { aux(k0), aux(a[1]) }, lim = a[0]; jloop(s, 2, false, [&](u32 *s) { u32 l = andk(lim, 3), r = jit_var_lt(s[0], l); drop(l); return r; }, [&](u32 *s) { mv(s[1], xork(s[1], 0x33)); mv(s[1], add(s[1], s[0])); mv(s[0], addk(s[0], 1)); }); o[0] = s[1]; drop(s[0]); return 1; }
        case 12: { u32 c = jit_var_lt(a[0], a[1]); jcond(c, false, 1, o, [&](u32 *q) { q[0] = addk(a[0], 5); }, [&](u32 *q) { q[0] = xork(a[1], 9); }); drop(c); return 1; }
        case 13: { u32 in[1] = { a[1] }; jcall("D", false, a[0], t1, ids, 2, 1, in, 1, o, [&](u32 j, u32 *b, u32 *q) { q[0] = j == 0 ? jit_var_xor(b[0], a[2]) : add(b[0], a[3]); }); return 1; }
        case 14: o[0] = add(a[0], a[1]); return 1; // N and scalar
        case 15: o[0] = lit<u32>(42, 3); o[1] = add(a[0], captured); return 2;
        case 16: o[0] = jit_var_block_reduce(ReduceOp::Add, a[0], 2, 0); return 1;
        case 17: o[0] = jit_var_reduce_dot(a[0], a[1]); return 1;
        case 18: { u32 q = jit_var_copy(a[0]); o[0] = jit_var_scatter(q, a[1], k0, t1, ReduceOp::Or, ReduceMode::Auto); drop(q); return 1; }
        case 19: { u32 i = andk(a[0], 1), z = lit<u32>(0, 2), one = lit<u32>(1); o[0] = jit_var_scatter(z, one, i, t1, ReduceOp::Add, ReduceMode::Expand); drop(z); drop(one); drop(i); return 1; }
        case 20: { u32 b = ltk(a[0], 100); o[0] = jit_var_compress(b); drop(b); return 1; }
        case 21: { u32 b = ltk(a[0], 100), r = jit_var_any_async(BK, b), s = jit_var_all_async(BK, b), one = lit<u32>(1), z = lit<u32>(0); o[0] = jit_var_select(r, one, z); o[1] = jit_var_select(s, one, z); drop(b); drop(r); drop(s); drop(one); drop(z); return 2; }
        case 22: { u32 q = addk(a[0], 1), w; jit_var_eval(q); w = xork(q, 2); drop(q); jit_var_eval(w); q = addk(w, 3); drop(w); jit_var_eval(q); o[0] = xork(q, 4); drop(q); return 1; } // temporaries reuse storage
        case 23: { u32 z = lit<u32>(9, N), c = xork(a[1], 6), i = counter(N); o[0] = jit_var_scatter(z, c, i, t1, ReduceOp::Add, ReduceMode::Auto); drop(z); drop(c); drop(i); return 1; } // literal of the size of an input
        case 24: { o[0] = addk(a[0], 1); int p = jit_freeze_pause(BK); sym_assert(p == 0, "pause reports the previous state"); u32 q = addk(a[0], 100); jit_var_eval(q); drop(q); p = jit_freeze_resume(BK); sym_assert(p == 1, "resume reports the previous state"); return 1; }
        case 25: { u32 q = a[0]; o[0] = jit_var_gather(captured, q, t1); return 1; }
        case 26: { u32 l = jit_var_cast(a[0], VarType::UInt8, 0), h = jit_var_cast(a[1], VarType::Float64, 0); jit_var_schedule(l); jit_var_schedule(h); jit_eval(); u32 m = jit_var_cast(l, VarType::UInt32, 0), n = jit_var_cast(h, VarType::UInt32, 0); o[0] = jit_var_xor(m, n); drop(l); drop(h); drop(m); drop(n); return 1; }
        case 27: { u32 q = jit_var_scatter(a[0], a[1], k0, t1, ReduceOp::Or, ReduceMode::Auto), w = addk(q, 1); jit_var_schedule(w); jit_eval(); u32 one = lit<u32>(1); o[0] = jit_var_scatter(q, one, one, t1, ReduceOp::Or, ReduceMode::Auto); o[1] = w; drop(q); drop(one); return 2; } // read between two writes
        case 28: o[0] = addk(a[0], 1); o[1] = aux(o[0]); return 2; // the same variable twice
        case 29: o[0] = aux(a[0]); o[1] = aux(a[0]); return 2;
        case 30: { u32 q = addk(a[0], 1); jit_var_eval(q); o[0] = q; o[1] = jit_var_scatter(a[1], q, k0, t1, ReduceOp::Or, ReduceMode::Auto); u32 w = add(o[0], a[0]); jit_var_eval(w); o[2] = w; return 3; }
        case 31: { u32 r = jit_var_reduce(BK, VarType::UInt32, ReduceOp::Max, a[0]); o[0] = jit_var_xor(r, a[1]); drop(r); return 1; }
        case 32: { u32 h = aux(a[1]), i = andk(a[0], 1); u32 r = jit_var_scatter_inc(&h, i, t1); jit_var_eval(r); drop(r); drop(i); o[0] = h; return 1; }
        case 33: { u32 w = counter(N); o[0] = add(a[0], w); drop(w); return 1; }
        case 34: o[0] = jit_var_tile(a[0], 2); return 1;
        case 35: o[0] = jit_var_repeat(a[1], 2, 0); return 1;
    }
    return 0;
}
static void ref(const Case &c, Ref &r) {
    u32 N = c.len[0]; const u32 *x = c.x[0], *y = c.x[1]; r.n = 1; for (int j = 0; j < MO; ++j) r.len[j] = N;
    auto f1 = [&](int j, auto f) { for (u32 i = 0; i < N; ++i) r.e[j][i] = f(i); };
    switch (SC) {
        case 0: f1(0, [&](u32 i) { return (x[i] ^ 3) + y[i]; }); break;
        case 1: r.n = 3; f1(0, [&](u32 i) { return x[i] + y[i]; }); f1(1, [&](u32 i) { return x[i] ^ y[i]; }); f1(2, [&](u32 i) { return (u32) (x[i] < y[i]); }); break;
        case 2: r.n = 2; f1(1, [&](u32 i) { return x[i] + 1; }); f1(0, [&](u32 i) { return (x[i] + 1) ^ x[i]; }); break;
        case 3: r.len[0] = 1; r.e[0][0] = 0; for (u32 i = 0; i < N; ++i) r.e[0][0] += x[i] + 1; break;
        case 4: { r.n = 2; u32 s = 0; f1(0, [&](u32 i) { u32 t = s; s += x[i] + 1; return t; }); u32 m = 0; for (u32 i = N; i-- > 0;) { m = choose(m < y[i], y[i], m); r.e[1][i] = m; } break; }
        case 5: r.n = 2; f1(0, [&](u32 i) { return x[i] + 1; }); f1(1, [&](u32 i) { return x[i]; }); break;
        case 6: r.n = 2; f1(0, [&](u32 i) { return x[i] ^ 6; }); f1(1, [&](u32 i) { return y[i] + 5; }); break;
        case 7: r.len[0] = c.len[1]; for (u32 k = 0; k < c.len[1]; ++k) { r.e[0][k] = y[k]; for (u32 i = 0; i < N; ++i) r.e[0][k] += (u32) ((x[i] & 1) == k); } break;
        case 8: f1(0, [&](u32 i) { return choose((x[i] & 1) != 0, y[1], y[0]); }); break;
        case 9: f1(0, [&](u32 i) { return x[i] + N; }); break;
        case 10: r.n = 2; f1(0, [&](u32 i) { return x[i] + 1; }); r.len[1] = c.len[1]; for (u32 i = 0; i < c.len[1]; ++i) r.e[1][i] = y[i] ^ 7; break;
        case 11: f1(0, [&](u32 i) { u32 v = y[i]; for (u32 k = 0; k < 3; ++k) v = choose(k < (x[i] & 3), (v ^ 0x33) + k, v); return v; }); break;
        case 12: f1(0, [&](u32 i) { return choose(x[i] < y[i], x[i] + 5, y[i] ^ 9); }); break;
        case 13: f1(0, [&](u32 i) { return choose(x[i] == ids[0], y[i] ^ c.x[2][0], choose(x[i] == ids[1], y[i] + c.x[3][0], 0u)); }); break;
        case 14: f1(0, [&](u32 i) { return x[i] + y[0]; }); break;
        case 15: r.n = 2; r.len[0] = 3; for (int i = 0; i < 3; ++i) r.e[0][i] = 42; f1(1, [&](u32 i) { return x[i] + captured_ref[0]; }); break;
        case 16: r.len[0] = N / 2; for (u32 i = 0; i < N / 2; ++i) r.e[0][i] = x[2 * i] + x[2 * i + 1]; break;
        case 17: r.len[0] = 1; r.e[0][0] = 0; for (u32 i = 0; i < N; ++i) r.e[0][0] += x[i] * y[i]; break;
        case 18: f1(0, [&](u32 i) { u32 v = x[i]; if (i == 0) for (u32 k = 0; k < c.len[1]; ++k) v |= y[k]; return v; }); break;
        case 19: r.len[0] = 2; for (u32 k = 0; k < 2; ++k) { r.e[0][k] = 0; for (u32 i = 0; i < N; ++i) r.e[0][k] += (u32) ((x[i] & 1) == k); } break;
        case 20: { u32 n = 0; for (u32 i = 0; i < N; ++i) if (x[i] < 100) r.e[0][n++] = i; r.len[0] = n; break; }
        case 21: { r.n = 2; r.len[0] = r.len[1] = 1; bool any = false, all = true; for (u32 i = 0; i < N; ++i) { bool b = x[i] < 100; any |= b; all &= b; } r.e[0][0] = any; r.e[1][0] = all; break; }
        case 22: f1(0, [&](u32 i) { return (((x[i] + 1) ^ 2) + 3) ^ 4; }); break;
        case 23: f1(0, [&](u32 i) { return 9 + (y[i] ^ 6); }); break;
        case 24: f1(0, [&](u32 i) { return x[i] + 1; }); break;
        case 25: f1(0, [&](u32 i) { return choose(x[i] == 0, captured_ref[0], choose(x[i] == 1, captured_ref[1], captured_ref[2])); }); break;
        case 26: f1(0, [&](u32 i) { return (x[i] & 0xff) ^ y[i]; }); break;
        case 27: { r.n = 2; u32 o = 0; for (u32 i = 0; i < N; ++i) o |= y[i]; f1(1, [&](u32 i) { return (i == 0 ? x[i] | o : x[i]) + 1; }); f1(0, [&](u32 i) { return i == 0 ? x[i] | o : i == 1 ? x[i] | 1 : x[i]; }); break; }
        case 28: r.n = 2; f1(0, [&](u32 i) { return x[i] + 1; }); f1(1, [&](u32 i) { return x[i] + 1; }); break;
        case 29: r.n = 2; f1(0, [&](u32 i) { return x[i]; }); f1(1, [&](u32 i) { return x[i]; }); break;
        case 30: { r.n = 3; f1(0, [&](u32 i) { return x[i] + 1; }); u32 o = 0; for (u32 i = 0; i < N; ++i) o |= x[i] + 1; f1(1, [&](u32 i) { return i == 0 ? y[i] | o : y[i]; }); f1(2, [&](u32 i) { return 2 * x[i] + 1; }); break; }
        case 31: { u32 o = 0; for (u32 i = 0; i < N; ++i) o = choose(o < x[i], x[i], o); f1(0, [&](u32 i) { return o ^ y[i]; }); break; }
        case 32: r.len[0] = c.len[1]; for (u32 k = 0; k < c.len[1]; ++k) { r.e[0][k] = y[k]; for (u32 i = 0; i < N; ++i) r.e[0][k] += (u32) ((x[i] & 1) == k); } break;
        case 33: f1(0, [&](u32 i) { return x[i] + i; }); break;
        case 34: case 35: r.len[0] = 2 * N; for (u32 i = 0; i < 2 * N; ++i) r.e[0][i] = SC == 34 ? x[i % N] : y[i / 2]; break;
    }
}
static void inputs(Case &c, u32 N, u32 round) {
    c.nin = SC == 13 ? 4 : 2; c.len[0] = N; c.len[2] = c.len[3] = 1; c.len[1] = SC == 10 ? N + 1 : SC == 7 || SC == 8 || SC == 32 ? (sym_param(3) ? N : 2) : SC == 14 ? 1 : N;
    for (u32 k = 0; k < c.nin; ++k) {
        for (u32 i = 0; i < c.len[k]; ++i) c.x[k][i] = (SC == 17 && (k == 1 || i)) ? (7 + 3 * i + round) : sym_u32(k ? "y" : "x");
        if (SC == 20) for (u32 i = 0; i < c.len[k]; ++i) c.x[k][i] = k == 0 ? (sym_choose("c", 2) || (i == 0 && (recording || sym_param(4))) ? 5 : 200) : 0;
        if (SC == 25 && k == 0) for (u32 i = 0; i < N; ++i) sym_assume(c.x[0][i] < 3);
        if (SC == 13 && k == 0) for (u32 i = 0; i < N; ++i) sym_assume((c.x[0][i] == 0) | (c.x[0][i] == ids[0]) | (c.x[0][i] == ids[1]));
        c.in[k] = arr(c.x[k], c.len[k]);
    }
}
static void verify(const Case &c, u32 *o, const char *M) {
    Ref r; ref(c, r);
    for (u32 j = 0; j < r.n; ++j) if (r.len[j]) check(o[j], r.e[j], r.len[j], M); else sym_assert(o[j] == 0, "an empty result");
    // other operations with the results and the inputs
    if (SC != 20) { u32 q = addk(o[0], 1), e[16]; for (u32 i = 0; i < r.len[0]; ++i) e[i] = r.e[0][i] + 1; check(q, e, r.len[0], "the results can be used further"); drop(q); }
    for (u32 j = 0; j < r.n; ++j) drop(o[j]);
    for (u32 k = 0; k < c.nin; ++k) { check(c.in[k], c.x[k], c.len[k], "the inputs are not modified"); drop(c.in[k]); }
}
static Recording *record(const Case &c, u32 *o, u32 &no) {
    jit_freeze_start(BK, c.in, c.nin);
    for (u32 k = 0; k < c.nin; ++k) aux(c.in[k]); // like any caller, the function owns references to its arguments
    no = fn(c.in, o);
    for (u32 k = 0; k < c.nin; ++k) drop(c.in[k]);
    for (u32 j = 0; j < no; ++j) { int rv; u32 q = jit_var_schedule_force(o[j], &rv); drop(o[j]); o[j] = q; }
    jit_eval();
    return jit_freeze_stop(BK, o, no);
}
// params: scenario, size when recording, size when replaying, size option, what happens in between
ENTRY t_frz() {
    SC = (int) sym_param(0); const u32 N1 = (u32) sym_param(1), N2 = (u32) sym_param(2); Case c; u32 o[MO], no;
    t1 = lit<bool>(true); k0 = lit<u32>(0);
    for (int i = 0; i < 8; ++i) captured_ref[i] = sym_u32("cap");
    captured = arr(captured_ref, SC == 25 ? 3 : 1);
    if (SC == 13) { reg("v", "D", 2); }
    recording = true; inputs(c, N1, 0); recording = false;
    Recording *r = record(c, o, no);
    verify(c, o, "recording a function returns its results");
    u32 replayed = 0;
    for (u32 k = 0; k < 2; ++k) {
        if (sym_param(4) == 1 && k == 1) jit_flush_kernel_cache();
        if (sym_param(4) == 2) jit_flush_malloc_cache();
        inputs(c, k ? N1 : N2, k + 1);
        sym_assert(!jit_freeze_discarded(r), "the recording can be replayed");
        if (jit_freeze_dry_run(r, c.in)) { replayed++; jit_freeze_replay(r, c.in, o); }
        else { jit_freeze_destroy(r); r = record(c, o, no); }
        verify(c, o, "a replay returns what the function itself returns");
    }
    // only these may ask for a new recording
    bool reduce = SC == 7 || SC == 18 || SC == 19 || SC == 20 || SC == 23 || SC == 27 || SC == 30;
    if (!reduce && sym_param(4) != 1) sym_assert(replayed == 2, "the recording is usable for other inputs");
    jit_freeze_destroy(r);
    drop(t1); drop(k0); drop(captured); if (SC == 13) unreg(2);
    sym_reach("end");
}
// Two recordings, used alternately; aborted recordings; refused operations
// params: scenario
ENTRY t_frz_misc() {
    t1 = lit<bool>(true); k0 = lit<u32>(0); Case a, b; u32 o[MO], no; bool raised = false;
    switch (sym_param(0)) {
        case 0: {
            SC = 0; inputs(a, 3, 0); Recording *r0 = record(a, o, no); verify(a, o, "first");
            SC = 2; inputs(a, 3, 0); Recording *r1 = record(a, o, no); verify(a, o, "second");
            for (int k = 0; k < 2; ++k) {
                SC = 0; inputs(a, 3, 1); SC = 2; inputs(b, 4, 1); u32 o1[MO];
                sym_assert(jit_freeze_dry_run(r0, a.in) && jit_freeze_dry_run(r1, b.in), "both can be replayed");
                jit_freeze_replay(r1, b.in, o1); jit_freeze_replay(r0, a.in, o);
                SC = 0; verify(a, o, "first recording"); SC = 2; verify(b, o1, "second recording");
            }
            jit_freeze_destroy(r0); jit_freeze_destroy(r1); break; }
        case 1: { // abandoned
            SC = 2; inputs(a, 3, 0); jit_freeze_start(BK, a.in, 2); no = fn(a.in, o); jit_freeze_abort(BK);
            verify(a, o, "results computed in a recording that was abandoned are right");
            SC = 0; inputs(a, 3, 0); Recording *r = record(a, o, no); verify(a, o, "recorded afterwards"); inputs(a, 3, 0); jit_freeze_replay(r, a.in, o); verify(a, o, "replayed"); jit_freeze_destroy(r); break; }
        case 2: { // element writes cannot be recorded
            SC = 0; inputs(a, 3, 0); jit_freeze_start(BK, a.in, 2); u32 v = 7, q = 0; bool ok = true;
            try { u32 y = addk(a.in[0], 1); jit_var_eval(y); q = jit_var_write(y, 1, &v); drop(y); } catch (const std::exception &) { ok = false; }
            if (!ok) { jit_freeze_abort(BK); raised = true; }
            else { Recording *r = nullptr; try { r = jit_freeze_stop(BK, &q, 1); } catch (const std::exception &) { raised = true; jit_freeze_abort(BK); } if (r) { raised = jit_freeze_discarded(r); jit_freeze_destroy(r); } }
            sym_assert(raised, "operations that cannot be replayed are refused");
            if (q) drop(q); drop(a.in[0]); drop(a.in[1]);
            SC = 0; inputs(a, 3, 0); Recording *r = record(a, o, no); verify(a, o, "recorded afterwards"); jit_freeze_destroy(r); break; }
        case 3: { // a replay while recording
            SC = 0; inputs(a, 3, 0); Recording *r = record(a, o, no); verify(a, o, "recorded"); inputs(a, 3, 0); jit_freeze_start(BK, a.in, 2);
            raised = throws([&] { jit_freeze_replay(r, a.in, o); }); sym_assert(raised, "a replay while recording is refused"); jit_freeze_abort(BK);
            jit_freeze_replay(r, a.in, o); verify(a, o, "replayed"); jit_freeze_destroy(r); break; }
        case 4: { // marked as not replayable
            SC = 0; inputs(a, 3, 0); jit_freeze_start(BK, a.in, 2); no = fn(a.in, o); jit_freeze_discard(BK, "no"); jit_var_schedule(o[0]); jit_eval(); Recording *r = jit_freeze_stop(BK, o, no); sym_assert(jit_freeze_discarded(r), "a recording that was discarded says so"); verify(a, o, "results"); jit_freeze_destroy(r); break; }
        case 5: { // the only recording
            SC = 0; inputs(a, 2, 0); Recording *r = record(a, o, no); verify(a, o, "recorded"); jit_freeze_destroy(r); break; }
        case 7: case 8: { // data that is not an input
            SC = sym_param(0) == 7 ? 15 : 25; captured_ref[0] = captured_ref[1] = captured_ref[2] = 4; captured = arr(captured_ref, SC == 25 ? 3 : 1); inputs(a, 3, 0);
            raised = throws([&] { Recording *r = record(a, o, no); jit_freeze_destroy(r); });
            sym_assert(raised, "the use of evaluated data that is not an input is refused"); drop(captured); drop(a.in[0]); drop(a.in[1]); for (u32 j = 0; j < no; ++j) drop(o[j]);
            SC = 0; inputs(a, 3, 0); Recording *r = record(a, o, no); verify(a, o, "recorded afterwards"); jit_freeze_destroy(r); break; }
        case 6: { // a literal as input
            u32 l = lit<u32>(3, 3), in[1] = { l }; raised = throws([&] { jit_freeze_start(BK, in, 1); u32 q = addk(l, 1); jit_var_schedule(q); jit_eval(); drop(q); Recording *r = jit_freeze_stop(BK, nullptr, 0); jit_freeze_destroy(r); });
            drop(l); break; }
    }
    drop(t1); drop(k0); sym_reach("end");
}
