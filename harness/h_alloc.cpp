// The memory allocator: histories of allocations, releases, copies and migrations.
#include "h_util.h"
#include "late.h"
typedef uint32_t u32; typedef uint8_t u8;
struct Blk { u8 *p; size_t n; u8 v; JitBackend b; bool shared, queued; };
static const int S = 3; static Blk blk[S]; static u8 *old;
static const JitBackend NO = JitBackend::None;
static u8 pat(u8 v, size_t i) { return (u8) (v + (i == 0 ? 0 : i)); }
static size_t spots(const Blk &b, size_t *o) { o[0] = 0; o[1] = b.n / 2; o[2] = b.n - 1; return 3; }
/// Host memory does not follow the order of the queue: the caller waits
static void settle(Blk &b) { if (b.p && b.b == NO && b.queued) { jit_sync_thread(); b.queued = false; } }
/// Host writes; device-only memory is filled through the queue
static void fill(Blk &b) {
    b.v = sym_u8("v");
    if (b.b == NO || b.shared) for (size_t i = 0; i < b.n; ++i) b.p[i] = b.v;
    else jit_memset_async(BK, b.p, (u32) b.n, 1, &b.v);
}
static void layout() {
    int ok = 1; for (int i = 0; i < S; ++i) if (blk[i].p) { ok &= ((size_t) blk[i].p % 64) == 0; for (int j = 0; j < i; ++j) if (blk[j].p) ok &= (blk[i].p + blk[i].n <= blk[j].p) | (blk[j].p + blk[j].n <= blk[i].p); }
    sym_assert(ok, "live allocations are aligned and do not overlap");
    for (JitBackend b : { NO, BK }) { size_t t = 0; for (Blk &q : blk) if (q.p && q.b == b) t += q.n; sym_assert(jit_malloc_watermark(b) >= t, "the peak usage covers the memory in use"); }
}
static void contents() { int ok = 1; for (Blk &b : blk) if (b.p) { size_t o[3]; spots(b, o); for (size_t i : o) ok &= b.p[i] == b.v; } sym_assert(ok, "an allocation keeps its contents until it is released"); }
static void release(int s) { if (!blk[s].p) return; settle(blk[s]); old = blk[s].p; jit_free(blk[s].p); blk[s].p = nullptr; }
static void acquire(int s, JitBackend b, size_t n, bool shared) { release(s); Blk &q = blk[s]; q.p = (u8 *) jit_malloc(b, n, shared); q.n = n; q.b = b; q.shared = shared; q.queued = false; sym_assert(q.p != nullptr, "an allocation succeeds"); sym_assert(sym_valid(q.p, n), "the whole range is usable"); sym_assert(jit_malloc_device(q.p) == -1, "host memory has no device"); fill(q); }
static void migrate(int d, int s, JitBackend b, bool move) {
    if (!blk[s].p || d == s ? !blk[s].p : false) return;
    settle(blk[s]); Blk q = blk[s]; if (move) blk[s].p = nullptr; else if (d == s) return;
    release(d); u8 *p = (u8 *) jit_malloc_migrate(q.p, b, move);
    sym_assert(p && sym_valid(p, q.n), "a migrated allocation has the size of the original"); if (!move) sym_assert(p != q.p, "a copy is a different allocation");
    blk[d] = q; blk[d].p = p; blk[d].b = move ? b : (q.b == BK ? BK : b); blk[d].shared = !move && q.b == NO && b == BK; blk[d].queued = true;
}
static void step(u32 op) {
    switch (op) {
        case 0: acquire(0, BK, 65, false); break;
        case 1: acquire(0, BK, 110, true); break;
        case 2: acquire(1, NO, 65, false); break;
        case 3: acquire(1, BK, 100, true); break;
        case 4: acquire(2, BK, 50, true); break;
        case 5: release(0); break;
        case 6: release(1); break;
        case 7: jit_flush_malloc_cache(); break;
        case 8: migrate(0, 0, NO, true); break;
        case 9: migrate(1, 1, BK, true); break;
        case 10: if (blk[0].p) migrate(2, 0, NO, false); break;
        case 11: if (blk[1].p) migrate(2, 1, BK, false); break;
        case 12: if (blk[0].p && blk[1].p) { size_t n = blk[0].n < blk[1].n ? blk[0].n : blk[1].n; if (n == blk[1].n) { jit_memcpy_async(BK, blk[1].p, blk[0].p, n); blk[1].v = blk[0].v; settle(blk[0]); blk[1].queued = true; if (blk[0].b == NO) jit_sync_thread(); release(0); } } break;
        case 13: jit_sync_thread(); contents(); break;
        case 14: if (old) { bool live = false; for (Blk &b : blk) live |= b.p == old; if (!live) sym_assert(raises([]() { jit_free(old); }) && raises([]() { jit_malloc_migrate(old, NO, 1); }) && raises([]() { jit_malloc_device(old); }), "released memory is not accepted"); } break;
        case 15: { u32 v[3] = { 1, 2, sym_u32("w") }, a = jit_var_mem_copy(BK, VarType::UInt32, v, 3, 1), b = jit_var_add(a, a); jit_var_schedule(b); jit_eval(); jit_var_dec_ref(a); jit_var_dec_ref(b); break; }
    }
    layout();
}
// params: steps, number of fixed steps, late, first steps..
ENTRY t_alloc() {
    const int K = (int) sym_param(0), F = (int) sym_param(1); nt_defer = (u32) sym_param(2);
    for (int s = 0; s < K; ++s) step(s < F ? (u32) sym_param(3 + s) : sym_choose("step", 16));
    jit_sync_thread(); contents();
    for (int s = 0; s < S; ++s) release(s);
    jit_sync_thread(); jit_flush_malloc_cache(); jit_malloc_clear_statistics();
    sym_assert(jit_malloc_watermark(NO) == 0, "everything was released");
    sym_reach("end");
}
// params: scenario
ENTRY t_alloc_misc() {
    switch ((int) sym_param(0)) {
        case 0: { // any small size
            size_t n = sym_u32("n"); sym_assume((n >= 1) & (n <= 400)); u32 b = sym_choose("backend", 3); u8 *p = (u8 *) jit_malloc(b ? BK : NO, n, b == 2); sym_assert(p && ((size_t) p & 63) == 0, "aligned"); size_t i = sym_u32("i"); sym_assume(i < n); sym_assert(sym_valid(p, 1) && jit_malloc_watermark(b ? BK : NO) >= n, "peak usage");
            p[i] = 5; jit_free(p); u8 *q = (u8 *) jit_malloc(b ? BK : NO, n, b == 2); q[n - 1] = 4; jit_free(q); break; }
        case 1: sym_assert(!jit_malloc(BK, 0, 0) && !jit_malloc(NO, 0, 1), "nothing is allocated for size zero"); jit_free(nullptr); sym_assert(!jit_malloc_migrate(nullptr, BK, 1), "null"); { int x; sym_assert(raises([&]() { jit_free(&x); }), "foreign memory is not accepted"); } break;
        case 2: { // sizes around the limit of small allocations, and beyond any
            for (size_t n : { (size_t) (1 << 20) + 1, (size_t) 2 << 20, ((size_t) 2 << 20) + 1 }) { u8 *p = (u8 *) jit_malloc(BK, n, 0); sym_assert(p && sym_valid(p, n), "large allocation"); p[0] = 1; p[n - 1] = 2; jit_free(p); u8 *q = (u8 *) jit_malloc(BK, n - 5, 0); q[n - 6] = 3; jit_free(q); }
            jit_sync_thread(); jit_flush_malloc_cache(); break; }
        case 3: { // unsatisfiable requests
            static const uint64_t N[] = { 1ull << 50, 1ull << 53, (1ull << 53) + 7, 1ull << 62, (1ull << 63) + 1, ~0ull, ~0ull - 62, ~0ull - 63, ~0ull - 64 }; size_t n = N[sym_choose("n", 9)]; u32 b = sym_choose("backend", 2); void *p = nullptr; size_t w = jit_malloc_watermark(b ? BK : NO);
            sym_assert(raises([&]() { p = jit_malloc(b ? BK : NO, n, 0); }), "an allocation that cannot be satisfied raises an error"); sym_assert(jit_malloc_watermark(b ? BK : NO) == w, "a failed allocation does not count"); 
            u8 *q = (u8 *) jit_malloc(BK, 100, 0); q[99] = 1; jit_free(q); break; }
        case 4: case 5: { // memory is exhausted at some point: unused memory is returned first
            size_t n = sym_param(0) == 4 ? 300 : ((size_t) 2 << 20) + 1; void *a = jit_malloc(BK, 7000, 0); jit_free(a); u32 k = sym_choose("fails", 3); size_t w = jit_malloc_watermark(BK); void *p = nullptr;
            sym_fail_alloc(sym_param(0) == 4 ? k : 0); bool r = raises([&]() { p = jit_malloc(BK, n, 0); }); sym_fail_alloc((uint64_t) -1);
            if (!r) { sym_assert(p && sym_valid(p, n), "a successful allocation is usable"); jit_free(p); } else sym_assert(!p && jit_malloc_watermark(BK) == w, "a failed allocation does not count"); break; }
        case 6: { // peak usage
            void *a = jit_malloc(BK, 64, 0), *b = jit_malloc(BK, 64, 0); size_t w = jit_malloc_watermark(BK); sym_assert(w >= 128, "two allocations"); jit_free(a); jit_free(b); sym_assert(jit_malloc_watermark(BK) == w, "the peak remains"); a = jit_malloc(BK, 64, 0); sym_assert(jit_malloc_watermark(BK) == w, "reused memory does not count twice"); jit_free(a); jit_flush_malloc_cache(); sym_assert(jit_malloc_watermark(BK) == w, "the peak remains after a flush"); jit_malloc_clear_statistics(); sym_assert(jit_malloc_watermark(BK) < w, "until it is cleared"); break; }
    }
    sym_reach("end");
}
