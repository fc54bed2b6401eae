// The mask stack: operations with side effects and memory accesses under
// every form of mask (jit_var_mask_push/apply/pop/peek/default).
#include "h_ctl.cpp"
enum { K_ARR, K_ONE, K_TRUE, K_FALSE, K_EXPR, K_LATE, K_APPLIED, K_NESTED, K_DEFAULT, K_SHADOW, K_POPPED, K_DISJOINT, K_COUNT };
/// Pushes masks onto the stack; ref: lanes enabled by the stack. Returns the number of entries
static u32 n_pushed; static u32 pushed[4];
static void push(u32 m) { jit_var_mask_push(BK, m); pushed[n_pushed++] = m; }
static void make_stack(int form, uint8_t *ref, size_t n) {
    uint8_t b[8]; for (size_t i = 0; i < n; ++i) ref[i] = 1;
    switch (form) {
        case K_ARR: push(make_mask(M_ARR, ref, n)); break;
        case K_ONE: push(make_mask(M_ONE, ref, n)); break;
        case K_TRUE: push(make_mask(M_TRUE, ref, n)); break;
        case K_FALSE: push(make_mask(M_FALSE, ref, n)); break;
        case K_EXPR: push(make_mask(M_EXPR, ref, n)); break;
        case K_LATE: push(make_mask(M_EXPR, ref, n)); jit_var_eval(pushed[0]); break;
        case K_APPLIED: { u32 m = make_mask(M_ARR, ref, n); push(jit_var_mask_apply(m, (u32) n)); drop(m); break; }
        case K_NESTED: { // what a front end does for nested masked regions
            u32 m = make_mask(M_ARR, ref, n), q = make_mask(M_EXPR, b, n); push(jit_var_mask_apply(m, (u32) n)); push(jit_var_mask_apply(q, (u32) n));
            for (size_t i = 0; i < n; ++i) ref[i] &= b[i]; drop(m); drop(q); break; }
        case K_DEFAULT: push(jit_var_mask_default(BK, n)); break;
        case K_SHADOW: push(make_mask(M_FALSE, b, n)); push(make_mask(M_EXPR, ref, n)); break; // the top entry counts
        case K_POPPED: push(make_mask(M_ARR, ref, n)); push(make_mask(M_FALSE, b, n)); jit_var_mask_pop(BK); drop(pushed[--n_pushed]); break;
        default: { u32 m = make_mask(M_ARR, ref, n), q = jit_var_not(m); push(jit_var_mask_apply(m, (u32) n)); push(jit_var_mask_apply(q, (u32) n)); for (size_t i = 0; i < n; ++i) ref[i] = 0; drop(m); drop(q); break; }
    }
    if (n_pushed) { u32 p = jit_var_mask_peek(BK); sym_assert(p == pushed[n_pushed - 1], "the mask on top of the stack is the one pushed last"); drop(p); }
}
static void pop_stack() { while (n_pushed) { jit_var_mask_pop(BK); drop(pushed[--n_pushed]); } u32 p = jit_var_mask_peek(BK); sym_assert(!p, "the stack is empty after as many pops as pushes"); }
// params: stack form, operation, user mask form, lanes, unaligned size for the operation (0/1)
ENTRY t_mask() {
    const int form = (int) sym_param(0), op = (int) sym_param(1), uf = (int) sym_param(2); const size_t n = (size_t) sym_param(3), N = 3;
    uint8_t st[8], um[8], act[8]; u32 x[8], y[8], T[12], o[12]; uint64_t idx[8]; const char *M = "masked-off lanes write nothing, active lanes write what they should";
    n_pushed = 0;
    make_stack(form, st, n);
    u32 m = make_mask(uf, um, n); for (size_t i = 0; i < n; ++i) act[i] = st[i] & um[i];
    for (size_t i = 0; i < n; ++i) { x[i] = op == 3 || op == 10 || op == 13 ? (u32) (1u << (8 * i % 31)) + 2 : sym_u32("x"); y[i] = sym_u32("y"); }
    for (size_t i = 0; i < 9; ++i) T[i] = (u32) (i * 17 + 5);
    u32 vx = arr(x, n), t = lit<bool>(true), z = lit<u32>(0), one = lit<u32>(1);
    auto distinct = [&]() { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) sym_assume(!(act[i] & act[j]) | (idx[i] != idx[j])); };
    // after the mask is gone, everything is enabled again
    auto after = [&](u32 tg, u32 cnt) {
        pop_stack();
        check(tg, T, cnt, M);
        u32 r = jit_var_scatter(tg, one, z, t, ReduceOp::Add, ReduceMode::Auto); T[0]++; check(r, T, cnt, "a mask has no effect after it was popped"); drop(r); drop(tg);
    };
    switch (op) {
        case 0: { // scatter
            u32 k = make_index(I_U32, idx, act, n, N); distinct(); u32 tg = arr(T, N), r = jit_var_scatter(tg, vx, k, m, ReduceOp::Identity, ReduceMode::Auto);
            for (size_t q = 0; q < N; ++q) for (size_t i = 0; i < n; ++i) T[q] = choose((act[i] != 0) & (idx[i] == q), x[i], T[q]);
            drop(tg); drop(k); after(r, N); break; }
        case 1: case 2: { // scalar operands: repeated in every enabled lane of the stack's mask
            u32 tg = arr(T, N), v = op == 1 ? lit<u32>(2) : opaque<u32>(2), r = jit_var_scatter(tg, v, one, m, ReduceOp::Add, ReduceMode::Auto); u32 c = 0;
            // sizes: that of the largest of mask, stack entry and value
            bool wide = jit_var_size(pushed[n_pushed - 1]) != 1 || jit_var_size(m) != 1;
            for (size_t i = 0; i < (wide ? n : 1); ++i) c += choose(act[i] != 0, 2u, 0u);
            T[1] += c; drop(tg); drop(v); after(r, N); break; }
        case 3: { // scatter-add
            u32 k = make_index(I_U32, idx, act, n, N), tg = arr(T, N), r = jit_var_scatter(tg, vx, k, m, ReduceOp::Add, ReduceMode::Auto);
            for (size_t q = 0; q < N; ++q) for (size_t i = 0; i < n; ++i) T[q] += choose((act[i] != 0) & (idx[i] == q), x[i], 0u);
            drop(tg); drop(k); after(r, N); break; }
        case 4: case 5: { // gathers: masked-off lanes may hold any index
            u32 k = make_index(I_U32, idx, act, n, N), tg = arr(T, 2 * N), g[2];
            if (op == 4) g[0] = jit_var_gather(tg, k, m), g[1] = 0; else jit_var_gather_packet(2, tg, k, m, g);
            if (form & 1) pop_stack(); // evaluated after the region was left
            for (int j = 0; j < 2; ++j) if (g[j]) jit_var_schedule(g[j]); jit_eval();
            for (int j = 0; j < 2; ++j) if (g[j]) { fetch(g[j], o, n); for (size_t i = 0; i < n; ++i) { u32 e = op == 4 ? pick_(T, N, idx[i]) : choose(idx[i] == 0, T[j], choose(idx[i] == 1, T[2 + j], T[4 + j])); sym_assert(!act[i] | (o[i] == e), "a gather in an enabled lane returns the addressed element"); sym_assert(um[i] | (o[i] == 0), "a gather in a masked lane returns zero"); } drop(g[j]); }
            drop(k); after(tg, 2 * N); break; }
        case 6: { // scatter_inc
            u32 k = make_index(I_U32, idx, act, n, N), tg = arr(T, N), h = tg, r = jit_var_scatter_inc(&h, k, m), b[N];
            for (size_t q = 0; q < N; ++q) { b[q] = T[q]; for (size_t i = 0; i < n; ++i) T[q] += (act[i] != 0) & (idx[i] == q); }
            fetch(r, o, n); for (size_t i = 0; i < n; ++i) { u32 c = 0; for (size_t j = 0; j < n; ++j) c += (act[j] != 0) & (idx[j] == idx[i]); sym_assert(!act[i] | (o[i] - pick_(b, N, idx[i]) < c), "an increment returns a value that the counter had"); }
            drop(k); drop(r); after(h, N); break; }
        case 7: { // exchange
            u32 k = make_index(I_U32, idx, act, n, N); distinct(); u32 tg = arr(T, N), h = tg, r = jit_var_scatter_exch(&h, vx, k, m);
            fetch(r, o, n); for (size_t i = 0; i < n; ++i) sym_assert(!act[i] | (o[i] == pick_(T, N, idx[i])), "an exchange returns the old element");
            for (size_t q = 0; q < N; ++q) for (size_t i = 0; i < n; ++i) T[q] = choose((act[i] != 0) & (idx[i] == q), x[i], T[q]);
            drop(k); drop(r); after(h, N); break; }
        case 8: { // compare and swap
            u32 k = make_index(I_U32, idx, act, n, N), vy = arr(y, n); distinct(); u32 tg = arr(T, N), h = tg, r = 0, ok = 0; bool s[8]; jit_var_scatter_cas(&h, vy, vx, k, m, &r, &ok);
            jit_var_schedule(r); jit_var_schedule(ok); jit_eval(); fetch(r, o, n); fetch(ok, s, n); u32 B[N]; for (size_t q = 0; q < N; ++q) B[q] = T[q];
            for (size_t i = 0; i < n; ++i) { u32 b = pick_(B, N, idx[i]); sym_assert(!act[i] | ((o[i] == b) & (s[i] == (b == y[i]))), "a compare-and-swap returns the old element and whether it wrote"); }
            for (size_t q = 0; q < N; ++q) for (size_t i = 0; i < n; ++i) T[q] = choose((act[i] != 0) & (idx[i] == q) & (B[q] == y[i]), x[i], T[q]);
            drop(k); drop(r); drop(ok); drop(vy); after(h, N); break; }
        case 9: case 10: { // packet scatter (10: addition)
            u32 k = make_index(I_U32, idx, act, n, N), vs[2] = { vx, lit<u32>(9) }; if (op == 9) distinct();
            u32 tg = arr(T, 2 * N), r = jit_var_scatter_packet(2, tg, vs, k, m, op == 9 ? ReduceOp::Identity : ReduceOp::Add, ReduceMode::Auto);
            for (size_t q = 0; q < 2 * N; ++q) for (size_t i = 0; i < n; ++i) { u32 v = q & 1 ? 9 : x[i]; T[q] = choose((act[i] != 0) & (idx[i] == q / 2), op == 9 ? v : T[q] + v, T[q]); }
            drop(tg); drop(k); drop(vs[1]); after(r, 2 * N); break; }
        case 11: case 12: { // local arrays
            u32 k = make_index(I_U32, idx, act, n, N), c = jit_array_create(BK, VarType::UInt32, n, N), seven = lit<u32>(7, n), a = jit_array_init(c, seven), w = jit_array_write(a, op == 11 ? k : one, vx, m);
            if (form & 1) pop_stack();
            u32 rd[N]; pop_stack(); for (u32 q = 0; q < N; ++q) { u32 l = lit<u32>(q); rd[q] = jit_array_read(w, l, t); jit_var_schedule(rd[q]); drop(l); } jit_eval();
            for (u32 q = 0; q < N; ++q) { u32 e[8]; for (size_t i = 0; i < n; ++i) e[i] = choose((act[i] != 0) & ((op == 11 ? idx[i] : 1) == q), x[i], 7u); check(rd[q], e, (u32) n, "a write to a local array happens in enabled lanes only"); drop(rd[q]); }
            drop(k); drop(c); drop(a); drop(w); drop(seven); after(arr(T, N), N); break; }
        case 13: { // several side effects under one mask, evaluated after the region was left
            u32 k = make_index(I_U32, idx, act, n, N), tg = arr(T, N), r = jit_var_scatter(tg, vx, k, m, ReduceOp::Add, ReduceMode::Auto), r2 = jit_var_scatter(r, one, k, m, ReduceOp::Add, ReduceMode::Auto);
            pop_stack(); u32 l = lit<u32>(2), r3 = jit_var_scatter(r2, one, l, t, ReduceOp::Add, ReduceMode::Auto);
            for (size_t q = 0; q < N; ++q) { for (size_t i = 0; i < n; ++i) T[q] += choose((act[i] != 0) & (idx[i] == q), x[i] + 1, 0u); } T[2]++;
            drop(k); drop(tg); drop(r); drop(r2); drop(l); after(r3, N); break; }
    }
    drop(m); drop(vx); drop(t); drop(z); drop(one);
    sym_reach("end");
}
// params: scenario, lanes
ENTRY t_mask_err() {
    const u32 n = (u32) sym_param(1); u32 T[3] = { 5, 6, 7 }, x[8]; bool b[8], c[8]; for (u32 i = 0; i < n; ++i) { x[i] = sym_param(0) == 3 || sym_param(0) == 4 ? (1u << (6 * i)) + 2 : sym_u32("x"); b[i] = sym<bool>("b"); c[i] = sym<bool>("c"); }
    u32 vx = arr(x, n), vb = arr(b, n), vc = arr(c, n), t = lit<bool>(true), one = lit<u32>(1);
    n_pushed = 0;
    switch (sym_param(0)) {
        case 0: sym_assert(throws([] { jit_var_mask_pop(BK); }), "popping an empty mask stack is refused"); break;
        case 1: sym_assert(throws([&] { drop(jit_var_mask_apply(vx, n)); }), "a mask that is not boolean is refused"); break;
        case 2: { // the mask argument itself and the pushed masks are never modified
            push(jit_var_inc_ref(vb)); u32 a = jit_var_mask_apply(vc, n); pop_stack(); bool o[8];
            fetch(a, o, n); for (u32 i = 0; i < n; ++i) sym_assert(o[i] == (b[i] & c[i]), "applying a mask combines it with the stack");
            fetch(vb, o, n); for (u32 i = 0; i < n; ++i) sym_assert(o[i] == b[i], "masks on the stack are not modified");
            fetch(vc, o, n); for (u32 i = 0; i < n; ++i) sym_assert(o[i] == c[i], "the mask argument is not modified");
            drop(a); break; }
        case 3: { // nested recordings see the mask of the region around them
            u32 nn[MAXN], vn = trips(nn, n, 2), z = lit<u32>(0), tg = arr(T, 3), m = jit_var_mask_apply(vb, n); push(m);
            u32 s[1] = { aux(z) }; jloop(s, 1, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { scat_add(tg, vx, s[0], t); mv(s[0], addk(s[0], 1)); });
            pop_stack(); for (u32 k = 0; k < 2; ++k) for (u32 i = 0; i < n; ++i) T[k] += choose(b[i] & (k < nn[i]), x[i], 0u);
            check(tg, T, 3, "a loop in a masked region has side effects in enabled lanes only"); drop(tg); drop(s[0]); drop(vn); drop(z); break; }
        case 4: { u32 tg = arr(T, 3), m = jit_var_mask_apply(vb, n); push(m); u32 q[1]; jcond(vc, false, 1, q, [&](u32 *o) { scat_add(tg, vx, one, t); o[0] = addk(vx, 1); }, [&](u32 *o) { u32 l = lit<u32>(2); scat_add(tg, vx, l, t); drop(l); o[0] = addk(vx, 2); });
            pop_stack(); u32 e[8]; for (u32 i = 0; i < n; ++i) { T[1] += choose(b[i] & c[i], x[i], 0u); T[2] += choose(b[i] & !c[i], x[i], 0u); e[i] = x[i] + (c[i] ? 1 : 2); }
            check(tg, T, 3, "a conditional in a masked region has side effects in enabled lanes only");
            u32 o[8]; fetch(q[0], o, n); for (u32 i = 0; i < n; ++i) sym_assert(!b[i] | (o[i] == e[i]), "a conditional in a masked region selects in enabled lanes"); drop(tg); drop(q[0]); break; }
        case 5: { // a recording that is abandoned restores the stack
            u32 cp = jit_record_begin(BK, nullptr); (void) cp; push(jit_var_inc_ref(vb)); pop_stack(); jit_record_end(BK, cp, 1);
            u32 p = jit_var_mask_peek(BK); sym_assert(!p, "no mask is left"); break; }
        case 6: { // masked region inside of the masked region of a loop
            u32 nn[MAXN], vn = trips(nn, n, 2), z = lit<u32>(0), tg = arr(T, 3);
            u32 s[1] = { aux(z) }; jloop(s, 1, false, [&](u32 *s) { return jit_var_lt(s[0], vn); }, [&](u32 *s) { u32 m = jit_var_mask_apply(vb, n); jit_var_mask_push(BK, m); scat_add(tg, one, s[0], t); jit_var_mask_pop(BK); drop(m); u32 l = lit<u32>(2); scat_add(tg, one, l, t); drop(l); mv(s[0], addk(s[0], 1)); });
            for (u32 k = 0; k < 2; ++k) for (u32 i = 0; i < n; ++i) { T[k] += choose(b[i] & (k < nn[i]), 1u, 0u); T[2] += choose(k < nn[i], 1u, 0u); }
            check(tg, T, 3, "a masked region in a loop affects enabled lanes that are still running"); drop(tg); drop(s[0]); drop(vn); drop(z); break; }
    }
    drop(vx); drop(vb); drop(vc); drop(t); drop(one); sym_reach("end");
}
