// Batched matrix products against the defining sum. All entries are small
// concrete integers (every sum is exact) except one symbolic entry, in a row or
// column that is zero otherwise, so that no accumulation order is assumed.
#include "h_util.h"
extern "C" { extern uint32_t nt_pool_size, nt_order, nt_ids; }
static const uint32_t D = DRJIT_GEMM_MAX_BDIMS;
struct Cfg { uint32_t nb, nr, ext[4]; int as[4], bs[4]; }; // strides: -1: one matrix, -2: as many matrices as dim 0 has, 0: broadcast, > 0 elements
static const Cfg CFG[] = {
    { 0, 0, {}, {}, {} },                                  // 0: plain
    { 1, 0, { 3 }, { -1 }, { -1 } },                       // 1: batch
    { 1, 0, { 3 }, { -1 }, { 0 } },                        // 2: broadcast B (may fold into M)
    { 1, 0, { 2 }, { 0 }, { -1 } },                        // 3: broadcast A
    { 0, 1, { 3 }, { -1 }, { -1 } },                       // 4: reduction (may fold into K)
    { 1, 1, { 2, 3 }, { -1, -2 }, { -1, 0 } },             // 5: batch and reduction
    { 2, 0, { 2, 3 }, { -1, -2 }, { 0, 0 } },              // 6: two folds
    { 2, 0, { 2, 2 }, { -2, -1 }, { -1, -2 } },            // 7: permuted batch
    { 1, 2, { 2, 1, 2 }, { -1, 0, -2 }, { 0, 0, -1 } },    // 8: unit extent
    { 2, 1, { 1, 2, 2 }, { 0, -1, -2 }, { 0, 0, -1 } },    // 9
    { 0, 2, { 2, 2 }, { -1, -2 }, { -1, -2 } },            // 10: two reductions
    { 1, 0, { 0 }, { -1 }, { -1 } },                       // 11: empty grid
    { 2, 0, { 2, 0 }, { -1, -2 }, { -1, -2 } },            // 12: empty grid
    { 0, 1, { 0 }, { -1 }, { -1 } },                       // 13: empty sum
    { 1, 1, { 2, 0 }, { -1, -2 }, { -1, -2 } },            // 14: empty sum
    { 2, 0, { 2, 2 }, { 0, -1 }, { 0, 0 } },               // 15: repeated output
    { 1, 1, { 2, 2 }, { -1, -2 }, { 0, -1 } },             // 16: outer fold impossible before reduction
};
template <typename T> static void gemm() {
    bool At = sym_param(1), Bt = sym_param(2); uint32_t M = sym_param(3), N = sym_param(4), K = sym_param(5); const Cfg &c = CFG[sym_param(6)]; bool var = sym_param(8);
    uint32_t workers = (uint32_t) sym_param(7);
    jit_llvm_set_thread_count(workers); jit_llvm_set_block_size(4); if (workers > 1) { nt_order = sym_choose("order", 3); nt_ids = 1; }
    GemmBatch b; memset(&b, 0xee, sizeof(b)); b.n_bdims = c.nb; b.n_rdims = c.nr;
    uint32_t grid = 1, red = 1, total = 1;
    for (uint32_t d = 0; d < c.nb + c.nr; ++d) {
        auto st = [&](int s, uint32_t m) { return s == -1 ? m : s == -2 ? m * c.ext[0] : (uint32_t) s; };
        b.extent[d] = c.ext[d]; b.a_stride[d] = st(c.as[d], M * K); b.b_stride[d] = st(c.bs[d], K * N);
        (d < c.nb ? grid : red) *= c.ext[d]; total *= c.ext[d] ? c.ext[d] : 1;
    }
    if (c.nb == 2 && c.as[0] == -2) { b.a_stride[0] = M * K * c.ext[1]; b.a_stride[1] = M * K; }
    size_t na = (size_t) M * K * total, nb = (size_t) K * N * total, nc = (size_t) grid * M * N;
    T *A = (T *) jit_malloc(BK, (na + 1) * sizeof(T)), *B = (T *) jit_malloc(BK, (nb + 1) * sizeof(T)), *C = (T *) jit_malloc(BK, (nc + 2) * sizeof(T));
    // f16 must represent every sum exactly: use sparse entries for deep products
    for (size_t i = 0; i < na; ++i) A[i] = (T) (float) (K > 50 && i % 11 ? 0 : ((i * 7 + i / 5) % 5 == 2 ? 1 : (int) ((i * 7 + i / 5) % 5) - 2));
    for (size_t i = 0; i < nb; ++i) { int k = (int) ((i * 3 + i / 7) % 4) - 1; B[i] = (T) (float) (k ? k : 3); }
    // The symbolic entry is the only one in its row of op(A) (or column of op(B))
    using U = uint_of<T>; T x = bits<T>((U) ((U) raw(sym<T>("x")) & (U) ~(U) (sizeof(T) == 2 ? 7 : 0xff))); // multiples of x are exact
    sym_assume((x >= (T) 0.25f) & (x <= (T) 4096.f));
    if (M && N && K) {
        uint32_t hi = sym_choose("hi", 2) ? M - 1 : 0, hk = sym_choose("hk", 2) ? K - 1 : 0;
        if (sym_choose("side", 2)) for (uint32_t k = 0; k < K; ++k) for (uint32_t t = 0; t < total; ++t) A[(size_t) t * M * K + (At ? k * M + hi : hi * K + k)] = (k == hk && t == 0) ? x : (T) 0.f;
        else { uint32_t hj = hi == 0 ? 0 : N - 1; for (uint32_t k = 0; k < K; ++k) for (uint32_t t = 0; t < total; ++t) B[(size_t) t * N * K + (Bt ? hj * K + k : k * N + hj)] = (k == hk && t == 0) ? x : (T) 0.f; }
    }
    for (size_t i = 0; i < nc + 2; ++i) C[i] = (T) 77.f;
    bool err = false, want = At && Bt && M && N && K && grid && red; uint32_t rs = 0;
    if (!var) { err = raises([&] { jit_batched_gemm(BK, VT<T>::v, At, Bt, M, N, K, c.nb + c.nr ? &b : nullptr, A, B, C); }); jit_sync_thread(); }
    else {
        uint32_t va = arr(A, na), vb = arr(B, nb), r = 0;
        err = raises([&] { r = jit_var_batched_gemm(va, vb, At, Bt, M, N, K, &b); });
        if (r) { rs = (uint32_t) jit_var_size(r); if (rs == nc) fetch(r, C, nc); drop(r); }
        if (!err) sym_assert(rs == nc, "the product has one matrix per batch entry");
        sym_assert(jit_var_ref(va) == 1 && jit_var_ref(vb) == 1, "no reference is leaked"); drop(va); drop(vb);
    }
    if (want) sym_assert(err, "transposing both operands is refused"); else if (!(At && Bt)) sym_assert(!err, "a valid product is accepted");
    sym_assert(C[nc] == (T) 77.f && C[nc + 1] == (T) 77.f, "only the result is written");
    if (!err) for (uint32_t g = 0; g < grid; ++g) {
        size_t ao = 0, bo = 0; uint32_t z = g; for (uint32_t d = 0; d < c.nb; ++d) { ao += (size_t) (z % c.ext[d]) * b.a_stride[d]; bo += (size_t) (z % c.ext[d]) * b.b_stride[d]; z /= c.ext[d]; }
        for (uint32_t i = 0; i < M; ++i) for (uint32_t j = 0; j < N; ++j) {
            using W = std::conditional_t<sizeof(T) == 2, float, T>; W e = 0;
            for (uint32_t q = 0; q < red; ++q) {
                size_t ar = ao, br = bo; uint32_t y = q; for (uint32_t d = c.nb; d < c.nb + c.nr; ++d) { ar += (size_t) (y % c.ext[d]) * b.a_stride[d]; br += (size_t) (y % c.ext[d]) * b.b_stride[d]; y /= c.ext[d]; }
                for (uint32_t k = 0; k < K; ++k) e += (W) A[ar + (At ? (size_t) k * M + i : (size_t) i * K + k)] * (W) B[br + (Bt ? (size_t) j * K + k : (size_t) k * N + j)];
            }
            sym_assert(C[((size_t) g * M + i) * N + j] == (T) e, "every entry is the sum of products over exactly the contracted indices");
        }
    }
    jit_free(A); jit_free(B); jit_free(C); sym_reach("end");
}
ENTRY t_gemm() { switch ((VarType) sym_param(0)) { DISPATCH_FLT_CASES(gemm) default: break; } }
ENTRY t_gemm_bad() { // unsupported types and too many dimensions are refused
    uint32_t x[4] = { 1, 2, 3, 4 }, o[4] = { 9, 9, 9, 9 }; GemmBatch b {}; float y[4] = { 1, 2, 3, 4 };
    sym_assert(raises([&] { jit_batched_gemm(BK, VarType::UInt32, 0, 0, 2, 2, 2, nullptr, x, x, o); }), "integer matrices are refused");
    b.n_bdims = D; b.n_rdims = 1; for (uint32_t i = 0; i < D; ++i) b.extent[i] = 1;
    sym_assert(raises([&] { jit_batched_gemm(BK, VarType::Float32, 0, 0, 2, 2, 2, &b, y, y, o); }), "too many dimensions are refused");
    uint32_t v = arr(x, 4), w = arr(y, 4), r = 0;
    sym_assert(raises([&] { r = jit_var_batched_gemm(v, v, 0, 0, 2, 2, 2, nullptr); }) && raises([&] { r = jit_var_batched_gemm(v, w, 0, 0, 2, 2, 2, nullptr); }) && raises([&] { r = jit_var_batched_gemm(w, 0, 0, 0, 2, 2, 2, nullptr); }) && raises([&] { r = jit_var_batched_gemm(w, w, 0, 0, 2, 2, 2, &b); }), "invalid operands are refused");
    jit_sync_thread(); for (int i = 0; i < 4; ++i) sym_assert(o[i] == 9, "nothing is written");
    sym_assert(jit_var_ref(v) == 1 && jit_var_ref(w) == 1, "no reference is leaked"); drop(v); drop(w);
    sym_reach("end");
}
