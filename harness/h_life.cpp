// Lifetimes: reference counts, callbacks, stashed counts, labels.
#include "h_ctl.cpp"
static bool none_left() { const char *w = jit_var_whos(); return strstr(w, "No variables registered") != nullptr; }
// ---- histories -------------------------------------------------------------
struct Obj { u32 idx, val[3]; int refs, dep[2], uses; bool expr, array, freed; int n_free, n_eval, x_eval; };
static Obj ob[24]; static int nob; static bool bad_args; static u32 tag;
static void cb(uint32_t index, int free, void *p) { Obj &o = *(Obj *) p; bad_args |= (index != o.idx) | (free != 0 && free != 1); if (free) o.n_free++; else o.n_eval++; }
static void model_free(int i) {
    if (ob[i].refs || ob[i].uses || ob[i].freed) return;
    ob[i].freed = true;
    for (int d : ob[i].dep) if (ob[i].expr && d >= 0) { ob[d].uses--; model_free(d); }
}
static int track(u32 idx, bool expr, int a, int b) {
    Obj &o = ob[nob]; o = Obj{}; o.idx = idx; o.refs = 1; o.expr = expr; o.dep[0] = a; o.dep[1] = b; if (a >= 0) ob[a].uses++; if (b >= 0) ob[b].uses++;
    jit_var_set_callback(idx, cb, &o); return nob++;
}
static void fcheck(const char *m) { int ok = 1; for (int i = 0; i < nob; ++i) ok &= ob[i].n_free == (ob[i].freed ? 1 : 0); sym_assert(ok, m); }
static void echeck() { int ok = 1; for (int i = 0; i < nob; ++i) if (!ob[i].freed) ok &= ob[i].n_eval == ob[i].x_eval; sym_assert(ok, "the callback reports the evaluation of each requested variable once"); sym_assert(!bad_args, "the callback is given the variable's index"); }
static void model_eval(int i) { if (!ob[i].expr) return; ob[i].expr = false; ob[i].x_eval++; int a = ob[i].dep[0], b = ob[i].dep[1]; if (a >= 0) ob[a].uses--; if (b >= 0) ob[b].uses--; if (a >= 0) model_free(a); if (b >= 0) model_free(b); }
static const int S = 3; static int slot[S];
static void unslot(int s) { int i = slot[s]; slot[s] = -1; if (i < 0) return; ob[i].refs--; model_free(i); drop(ob[i].idx); }
static void reslot(int s, int n) { unslot(s); slot[s] = n; }
static void step(u32 op) {
    u32 x[3];
    if (op < 3) { for (u32 &e : x) e = sym_u32("x"); u32 v = arr(x, 3); int i = track(v, false, -1, -1); memcpy(ob[i].val, x, sizeof(x)); reslot((int) op, i); }
    else if (op < 7) { // expression, once with an operand replaced by the result
        static const int D[4][3] = { { 0, 0, 1 }, { 2, 0, 1 }, { 1, 2, 0 }, { 2, 2, 2 } }; const int *d = D[op - 3]; int a = slot[d[1]], b = slot[d[2]]; if (a < 0 || b < 0) return;
        u32 s = add(ob[a].idx, ob[b].idx), k = lit<u32>(0x1000 + tag), v = jit_var_xor(s, k); drop(k); drop(s);
        int i = track(v, true, a, b); for (int q = 0; q < 3; ++q) ob[i].val[q] = (ob[a].val[q] + ob[b].val[q]) ^ (0x1000 + tag); tag++; reslot(d[0], i); }
    else if (op < 10) unslot((int) op - 7);
    else if (op < 12) { int t = op == 10 ? 0 : 1; if (slot[t] < 0) return; int i = slot[t]; jit_var_inc_ref(ob[i].idx); ob[i].refs++; reslot(2, i); }
    else if (op < 14) { int t = op == 12 ? 0 : 2; if (slot[t] < 0) return; jit_var_eval(ob[slot[t]].idx); model_eval(slot[t]); }
    else { for (int t : slot) if (t >= 0) jit_var_schedule(ob[t].idx); jit_eval(); for (int t : slot) if (t >= 0 && ob[t].expr) { bool inner = false; model_eval(t); (void) inner; } }
    fcheck("a variable is freed exactly when nothing refers to it any more");
    // an evaluation may also compute variables that were not requested: count only requested ones
}
// params: steps, number of fixed steps, first steps..
ENTRY t_life() {
    const int K = (int) sym_param(0), F = (int) sym_param(1); for (int &s : slot) s = -1;
    for (int s = 0; s < K; ++s) step(s < F ? (u32) sym_param(2 + s) : sym_choose("step", 15));
    sym_assert(!bad_args, "the callback is given the variable's index");
    for (int t : slot) if (t >= 0) { for (int i = 0; i < nob; ++i) ob[i].x_eval = ob[i].n_eval; jit_var_eval(ob[t].idx); model_eval(t); sym_assert(ob[t].n_eval == ob[t].x_eval, "the callback reports the evaluation of a requested variable once"); }
    fcheck("evaluation frees exactly the operands nothing else refers to");
    for (int t : slot) if (t >= 0) { u32 o[3]; fetch(ob[t].idx, o, 3); int ok = 1; for (int q = 0; q < 3; ++q) ok &= o[q] == ob[t].val[q]; sym_assert(ok, "a live variable keeps its value"); }
    for (int s = 0; s < S; ++s) unslot(s);
    int all = 1; for (int i = 0; i < nob; ++i) all &= (ob[i].n_free == 1) & ob[i].freed;
    sym_assert(all, "every variable is freed exactly once");
    sym_assert(none_left(), "no variable remains after the last reference is gone");
    sym_reach("end");
}
// ---- scenarios -------------------------------------------------------------
static u32 other[4]; static int events, seen[8];
ENTRY t_life_misc() {
    u32 x[3], y[3], o[3], z = lit<u32>(0), t = lit<bool>(true), one = lit<u32>(1);
    for (int i = 0; i < 3; ++i) { x[i] = sym_u32("x"); y[i] = sym_u32("y"); }
    auto keep = [&](u32 v, u32 *e, const char *m) { fetch(v, o, 3); int ok = 1; for (int i = 0; i < 3; ++i) ok &= o[i] == e[i]; sym_assert(ok, m); };
    auto scat = [&](u32 &v, u32 k) { u32 w = lit<u32>(k), n = jit_var_scatter(v, w, one, t, ReduceOp::Identity, ReduceMode::Auto); drop(w); drop(v); v = n; };
    int sc = (int) sym_param(0); u32 n = (u32) sym_param(1);
    switch (sc) {
        case 0: case 1: { // a stashed count decides whether a write is in place
            u32 v = arr(x, 3); if (sc) { u32 k = xork(v, 5); drop(v); v = k; for (u32 &e : x) e ^= 5; }
            for (u32 i = 1; i < n; ++i) jit_var_inc_ref(v);
            uint64_t h = jit_var_stash_ref(v); u32 w = v; if (n == 1) { jit_var_inc_ref(v); w = v; }
            u32 q = v; scat(q, 77); // consumes one reference
            x[1] = n == 1 ? x[1] : x[1]; u32 e[3] = { x[0], 77, x[2] };
            keep(q, e, "the written array has the new value");
            if (n > 1) { u32 others = n - 1; keep(w, x, "other references keep their value"); jit_var_unstash_ref(h); for (u32 i = 0; i < others; ++i) drop(w); }
            else { jit_var_unstash_ref(h); drop(w); }
            drop(q); break; }
        case 2: { // handles that outlive their variable
            u32 v = arr(x, 3); uint64_t h = jit_var_stash_ref(v); drop(v);
            u32 w = arr(y, 3); jit_var_unstash_ref(h); uint64_t g = jit_var_stash_ref(w); sym_assert(g != 0, "a fresh variable can be stashed"); jit_var_unstash_ref(h);
            u32 c = aux(w), q = aux(w); scat(q, 5); drop(q); // in place thanks to the stashed count (1)
            u32 e[3] = { y[0], 5, y[2] }; keep(c, e, "an expired handle does not touch the stash of another variable"); jit_var_unstash_ref(g);
            drop(c); drop(w); break; }
        case 3: { u32 v = arr(x, 3); jit_var_inc_ref(v); uint64_t h = jit_var_stash_ref(v), g = jit_var_stash_ref(v); sym_assert(g == 0 && h != 0, "only the outermost region stashes"); jit_var_unstash_ref(g); drop(v); u32 c = aux(v), q = aux(v);
            scat(q, 5); keep(c, x, "the stashed count was two: the write is to a copy"); drop(q); jit_var_unstash_ref(h); drop(c);
            q = aux(v); drop(v); scat(q, 6); u32 e[3] = { x[0], 6, x[2] }; keep(q, e, "after the region the current count decides"); drop(q); jit_var_unstash_ref(0); sym_assert(jit_var_stash_ref(0) == 0, "the null variable has no count"); break; }
        case 4: { // a local array's length is not a count
            u32 a = jit_array_create(BK, VarType::UInt32, 3, 4), v = arr(x, 3), b = jit_array_init(a, v); uint64_t h = jit_var_stash_ref(b); sym_assert(jit_array_length(b) == 4, "arrays keep their length"); u32 r = jit_array_read(b, one, t); keep(r, x, "and contents"); jit_var_unstash_ref(h); sym_assert(jit_array_length(b) == 4, "arrays keep their length"); drop(r); drop(a); drop(b); drop(v); break; }
        case 5: { // deep and wide dependencies
            u32 v = arr(x, 3), c = aux(v); for (u32 i = 0; i < n; ++i) { u32 k = add(c, i & 1 ? v : c); mv(c, k); } drop(c); sym_assert(jit_var_ref(v) == 1, "a dropped chain releases its inputs"); keep(v, x, "inputs of a dropped chain"); drop(v); break; }
        case 12: { // expression trees of any shape: everything is released with the root, but what is still referenced
            static int freed[6]; const int N = 6; u32 in[6], pool[6]; for (int i = 0; i < N; ++i) { freed[i] = 0; in[i] = pool[i] = arr(x, 3); jit_var_set_callback(in[i], [](uint32_t, int f, void *p) { if (f) (*(int *) p)++; }, &freed[i]); }
            int k = N; while (k > 1) { int i = (int) sym_choose("join", (u32) k - 1); bool tern = k > 2 && i + 2 < k && (n & 1); u32 r;
                if (tern) { r = jit_var_fma(pool[i], pool[i + 1], pool[i + 2]); } else r = n & 2 ? jit_var_xor(pool[i + 1], pool[i]) : jit_var_xor(pool[i], pool[i + 1]);
                int c = tern ? 3 : 2; for (int q = 0; q < c; ++q) if (k < N || true) { bool leaf = false; for (u32 v : in) leaf |= v == pool[i + q]; if (!leaf) drop(pool[i + q]); }
                pool[i] = r; for (int q = i + 1; q + c - 1 < k; ++q) pool[q] = pool[q + c - 1]; k -= c - 1; }
            u32 held = sym_choose("held", 3) * 2; for (int i = 0; i < N; ++i) if (i != (int) held) drop(in[i]);
            int z = 1; for (int f : freed) z &= f == 0; sym_assert(z, "operands of a live expression are not released"); drop(pool[0]);
            z = 1; for (int i = 0; i < N; ++i) z &= freed[i] == (i != (int) held); sym_assert(z, "operands are released with the expression"); keep(in[held], x, "unless they are still referenced"); drop(in[held]); break; }
        case 6: { // callbacks that use the interface
            static Obj dummy; u32 a = arr(x, 3), b = addk(a, 1), c = addk(b, 2); other[0] = a; other[1] = b; events = 0;
            auto f = [](uint32_t, int free, void *p) { events += 1 << (8 * free); if (free) { drop(other[0]); drop(other[1]); u32 k = lit<u32>(3), l = addk(k, 4); seen[0] = (int) jit_var_size(l); drop(k); drop(l); } (void) p; };
            jit_var_set_callback(c, f, &dummy); u32 d = addk(c, 9); drop(c); sym_assert(events == 0, "a variable in use is not freed"); drop(d); sym_assert(events == 256 && seen[0] == 1, "a callback that frees and creates variables runs once"); break; }
        case 7: { // on evaluation: data is available, other callbacks can be removed
            u32 a = arr(x, 3), b = addk(a, 1), c = addk(b, 2); other[0] = b; other[1] = c; events = 0; static u32 got[3];
            auto f = [](uint32_t i, int free, void *p) { events += 1 << (8 * free); if (!free) { u32 k[3]; fetch(i, k, 3); for (int q = 0; q < 3; ++q) got[q] = k[q]; if (p) { jit_var_set_callback(other[0], nullptr, nullptr); jit_var_set_callback(other[1], nullptr, nullptr); } } };
            void *once = n ? (void *) &events : nullptr;
            jit_var_set_callback(b, f, once); jit_var_set_callback(c, f, once); jit_var_schedule(b); jit_var_schedule(c); jit_eval();
            sym_assert((events & 0xff) == (n ? 1 : 2), "callbacks run once for each evaluated variable, removed ones do not run"); int g = 1; for (int q = 0; q < 3; ++q) g &= (got[q] == x[q] + 1) | (got[q] == x[q] + 3); sym_assert(g, "a callback sees the evaluated data");
            drop(a); drop(b); drop(c); sym_assert((events >> 8) == (n ? 0 : 2), "and when freed"); break; }
        case 8: { // replaced callbacks
            u32 a = arr(x, 3); events = 0; auto f = [](uint32_t, int free, void *p) { events += free ? *(int *) p : 0; }; static int p1 = 1, p2 = 16; jit_var_set_callback(a, f, &p1); jit_var_set_callback(a, nullptr, nullptr); jit_var_set_callback(a, f, &p2); u32 b = addk(a, 1); jit_var_eval(b); drop(b); drop(a); sym_assert(events == 16, "only the last callback runs, with its data"); a = arr(y, 3); drop(a); sym_assert(events == 16, "a new variable has no callback"); break; }
        case 9: { // an index is not handed out while it is in use
            u32 v[80]; int ok = 1; for (u32 i = 0; i < 80; ++i) { u32 k = i; v[i] = arr(&k, 1); for (u32 j = 0; j < i; ++j) ok &= v[i] != v[j]; } for (u32 i = 0; i < 80; i += 3) drop(v[i]); for (u32 i = 0; i < 80; i += 3) { u32 k = 100 + i; v[i] = arr(&k, 1); for (u32 j = 0; j < 80; ++j) ok &= j == i || (j % 3 == 0 && j > i) || v[i] != v[j]; }
            sym_assert(ok, "indices of live variables are distinct"); for (u32 i = 0; i < 80; ++i) { u32 k; jit_var_read(v[i], 0, &k); ok &= k == (i % 3 ? i : 100 + i); } sym_assert(ok, "variables keep their values"); for (u32 k : v) drop(k); break; }
        case 10: { // counts as reported
            u32 v = arr(x, 3); sym_assert(jit_var_ref(v) == 1, "one reference"); u32 w = jit_var_inc_ref(v); sym_assert(w == v && jit_var_ref(v) == 2, "two references"); u32 e = xork(v, 4); drop(w); drop(v); u32 ee[3] = { x[0] ^ 4, x[1] ^ 4, x[2] ^ 4 }; keep(e, ee, "an operand lives as long as it is needed"); drop(e); jit_var_dec_ref(0 * events); sym_assert(jit_var_inc_ref_impl(0) == 0, "the null variable"); break; }
        case 11: { // an exception in the middle of an operation leaves counts alone
            u32 v = arr(x, 3), w = arr(y, 2), e = xork(v, 3); u32 r0 = jit_var_ref(v), r1 = jit_var_ref(w), r2 = jit_var_ref(e); sym_assert(raises([&]() { u32 k = add(e, w); drop(k); }), "incompatible sizes"); sym_assert(raises([&]() { u32 k = jit_var_scatter(v, w, e, t, ReduceOp::Identity, ReduceMode::Auto); drop(k); }), "incompatible sizes"); sym_assert(raises([&]() { u32 k = jit_var_gather(w, e, v); drop(k); }), "mask type");
            sym_assert(jit_var_ref(v) == r0 && jit_var_ref(w) == r1 && jit_var_ref(e) == r2, "refused operations leave the reference counts alone"); keep(v, x, "and values"); drop(v); drop(w); drop(e); break; }
    }
    drop(z); drop(t); drop(one);
    sym_assert(none_left(), "no variable remains");
    sym_reach("end");
}
// ---- labels ----------------------------------------------------------------
static char L[3][6]; static bool okL[3];
static void text(int k, int len, int nsym) { for (int i = 0; i < len; ++i) { uint8_t c = i < nsym ? sym_u8("c") : (uint8_t) "a7.Z"[(k + i) & 3]; sym_assume(c != 0); L[k][i] = (char) c; } L[k][len] = 0; okL[k] = true; for (int i = 0; i < len; ++i) okL[k] = okL[k] & (L[k][i] != '\n') & (L[k][i] != '/'); }
// params: number of strings, length, references, prefix depth, form of the variable
ENTRY t_label() {
    int na = (int) sym_param(0), len = (int) sym_param(1), refs = (int) sym_param(2), depth = (int) sym_param(3), form = (int) sym_param(4); u32 x[3] = { 4, 5, 6 };
    u32 v = form == 0 ? arr(x, 3) : form == 1 ? lit<u32>(7, 3) : counter(3); if (form == 2) { mv(v, xork(v, 9)); }
    for (int i = 1; i < refs; ++i) jit_var_inc_ref(v);
    if (depth) jit_prefix_push(BK, "outer");
    if (depth > 1) jit_prefix_push(BK, "in ner");
    if (depth) { const char *p = jit_prefix(BK); char e[] = "outer/in ner/"; if (depth == 1) e[6] = 0; sym_assert(p && !strcmp(p, e), "the prefix joins the pushed names"); }
    else sym_assert(jit_prefix(BK) == nullptr, "no prefix without a push");
    char exp[40]; int q = 0; bool ok = true;
    for (int k = 0; k < na; ++k) {
        text(k, na > 1 && k == 1 ? 1 : len, na == 1 ? 2 : k + 2 >= na); ok = ok & okL[k];
        bool num = false; if (na > 1) { uint8_t c0 = (uint8_t) L[k][0]; num = sym_concretize((c0 >= '0') & (c0 <= '9')); }
        if (num) exp[q++] = '['; else if (k) exp[q++] = '.';
        for (int i = 0; L[k][i]; ++i) exp[q++] = L[k][i];
        if (num) exp[q++] = ']';
    }
    exp[q] = 0;
    u32 r = 0; bool done = !raises([&]() { r = na == 0 ? jit_var_set_label(v, 1, nullptr) : na == 1 ? jit_var_set_label(v, 1, L[0]) : na == 2 ? jit_var_set_label(v, 2, L[0], L[1]) : jit_var_set_label(v, 3, L[0], L[1], L[2]); });
    sym_assert(done == ok, "labels with a newline or slash, and only those, are refused");
    if (done) {
        const char *l = jit_var_label(r);
        if (na == 0 && depth == 0) sym_assert(!l || !*l, "no label");
        else { int same = l != nullptr; if (l) { int n = (int) strlen(l); same = n == q; for (int i = 0; i < q && i < n; ++i) same &= l[i] == exp[i]; } sym_assert(same, "the label is the given text, parts joined with '.', numbers in brackets"); }
        u32 o[3]; fetch(r, o, 3); int good = 1; for (u32 i = 0; i < 3; ++i) good &= o[i] == (form == 0 ? x[i] : form == 1 ? 7u : i ^ 9u); sym_assert(good, "labelling does not change the value");
        if (refs > 1) sym_assert(!jit_var_label(v), "other references keep their label");
        u32 r2 = addk(r, 1); sym_assert(!jit_var_label(r2) || depth, "results have no label of their own"); drop(r2);
        drop(r);
    } else sym_assert(!jit_var_label(v) || depth, "a refused label is not set");
    for (int i = 0; i < refs; ++i) drop(v);
    for (int i = 0; i < depth; ++i) jit_prefix_pop(BK);
    sym_assert(raises([]() { jit_prefix_pop(BK); }), "popping from an empty prefix stack is refused"); sym_assert(raises([]() { jit_prefix_push(BK, "a/b"); }) && jit_prefix(BK) == nullptr, "an invalid prefix is refused");
    sym_assert(none_left(), "no variable remains after labelling");
    sym_reach("end");
}
