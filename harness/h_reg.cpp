// The pointer registry against a model: arbitrary histories of put, remove and clear.
#include "h_util.h"
typedef uint32_t u32;
static const int P = 4, D = 3, MB = 132;
// Same text at different addresses: domains are identified by their contents
static const char v_a1[] = "llvm", v_a2[] = "llvm", v_b[] = "cuda", d_x1[] = "Shape", d_x2[] = "Shape", d_y[] = "shape";
static const char *VAR[2][D] = { { v_a1, v_b, v_a1 }, { v_a2, v_b, v_a2 } }, *DOM[2][D] = { { d_x1, d_x1, d_y }, { d_x2, d_x2, d_y } };
static char obj[P], base_obj[MB];
struct Entry { int state, dom; u32 id; }; // 0: unknown, 1: registered, 2: cleared
static Entry e[P], be[MB]; static u32 B;
static u32 lowest(int d) { for (u32 id = 1;; ++id) { bool used = false; for (int p = 0; p < P; ++p) used |= e[p].state == 1 && e[p].dom == d && e[p].id == id; for (u32 p = 0; p < B; ++p) used |= be[p].state == 1 && be[p].dom == d && be[p].id == id; if (!used) return id; } }
static u32 bound(int d) { u32 r = 0; for (int p = 0; p < P; ++p) if (e[p].state == 1 && e[p].dom == d && e[p].id > r) r = e[p].id; for (u32 p = 0; p < B; ++p) if (be[p].state == 1 && be[p].dom == d && be[p].id > r) r = be[p].id; return r; }
static void *owner(int d, u32 id) { for (int p = 0; p < P; ++p) if (e[p].state == 1 && e[p].dom == d && e[p].id == id) return &obj[p]; for (u32 p = 0; p < B; ++p) if (be[p].state == 1 && be[p].dom == d && be[p].id == id) return &base_obj[p]; return nullptr; }
static void put(Entry &n, void *ptr, int d, int alt) {
    u32 id = 0; bool ok = !raises([&]() { id = jit_registry_put(VAR[alt][d], DOM[alt][d], ptr); });
    sym_assert(ok == (n.state == 0), "exactly the registration of an unregistered pointer succeeds");
    if (ok) { u32 low = lowest(d); sym_assert(id == low, "the lowest ID that is not in use is returned"); n.state = 1; n.dom = d; n.id = id; }
}
static void verify(int alt) {
    for (int p = 0; p < P; ++p) {
        if (e[p].state == 0) sym_assert(raises([&]() { jit_registry_id(&obj[p]); }), "asking for the ID of an unregistered pointer raises an error");
        else sym_assert(jit_registry_id(&obj[p]) == (e[p].state == 1 ? e[p].id : 0), "the ID of a pointer does not change");
    }
    for (u32 p = 0; p < B; ++p) if (be[p].state) sym_assert(jit_registry_id(&base_obj[p]) == (be[p].state == 1 ? be[p].id : 0), "the ID of a pointer does not change (2)");
    for (int d = 0; d < D; ++d) {
        const char *v = VAR[alt][d], *m = DOM[alt][d]; u32 b = bound(d);
        sym_assert(jit_registry_id_bound(v, m) == b, "the bound is the largest ID in use");
        sym_assert(jit_registry_ptr(v, m, 0) == nullptr, "ID zero is the null pointer");
        void *q = jit_registry_peek(v, m); bool known = q == nullptr;
        void *dst[MB + P + 2]; for (u32 i = 0; i < b + 1; ++i) dst[i] = i < b ? nullptr : (void *) dst;
        jit_registry_get_pointers(v, m, dst);
        int good = 1;
        for (u32 i = 0; i < b; ++i) { void *o = owner(d, i + 1); good &= dst[i] == o; known |= o == q; }
        sym_assert(good, "the list of pointers has every registered pointer at its ID"); sym_assert(dst[b] == (void *) dst, "the list of pointers stays within the bound");
        sym_assert(known && (q != nullptr) == (b != 0), "peek returns a registered pointer whenever there is one");
        if (b) { u32 id = sym_u32("id"); sym_assume((id >= 1) & (id <= b)); void *r = jit_registry_ptr(v, m, id); uint64_t x = 0; for (u32 i = 1; i <= b; ++i) x = choose(id == i, (uint64_t) (size_t) owner(d, i), x); sym_assert((uint64_t) (size_t) r == x, "an ID is mapped to the pointer that owns it, a free ID to the null pointer"); }
        for (u32 id = b + 1; id < b + 3; ++id) { void *r = nullptr; raises([&]() { r = jit_registry_ptr(v, m, id); }); sym_assert(!r, "IDs beyond the bound have no pointer"); }
    }
}
// params: steps, number of fixed steps, first steps.., pointers registered before
ENTRY t_reg() {
    const int K = (int) sym_param(0), F = (int) sym_param(1); B = (u32) sym_param(2);
    for (u32 p = 0; p < B; ++p) put(be[p], &base_obj[p], (int) (p % 5 == 4 ? 1 : 0), p & 1);
    if (B) { static const u32 rm[] = { 0, 1, 62, 77, 78, 79, 80, MB }; int k = 0; for (u32 r : rm) { u32 p = r < B ? r : B - 1; if (be[p].state && (k++ % 3 != 2 || sym_choose("keep", 2))) { jit_registry_remove(&base_obj[p]); be[p].state = 0; } } }
    for (int s = 0; s < K; ++s) {
        u32 op = s < F ? (u32) sym_param(3 + s) : sym_choose("step", 2 * P + 3); int alt = s & 1;
        if (op < P) put(e[op], &obj[op], (int) (op < 2 ? 0 : op - 1), alt);
        else if (op < 2 * P) { u32 p = op - P; if (e[p].state) { jit_registry_remove(&obj[p]); e[p].state = 0; } else sym_assert(raises([&]() { jit_registry_remove(&obj[p]); }), "removing an unregistered pointer raises an error"); }
        else if (op == 2 * P) { jit_registry_clear(); for (auto &x : e) if (x.state) x.state = 2; for (u32 p = 0; p < B; ++p) if (be[p].state) be[p].state = 2; }
        else if (op == 2 * P + 1) put(e[3], &obj[3], 0, alt);
        else put(e[0], &obj[0], 2, alt);
    }
    sym_assert(raises([&]() { jit_registry_put("llvm", "Shape", nullptr); }), "registering the null pointer raises an error");
    sym_assert(jit_registry_id(nullptr) == 0, "the null pointer has ID zero");
    verify(1);
    for (int p = 0; p < P; ++p) if (e[p].state) { jit_registry_remove(&obj[p]); e[p].state = 0; }
    for (u32 p = 0; p < B; ++p) if (be[p].state) { jit_registry_remove(&base_obj[p]); be[p].state = 0; }
    for (int d = 0; d < D; ++d) sym_assert(jit_registry_id_bound(VAR[1][d], DOM[1][d]) == 0 && !jit_registry_peek(VAR[0][d], DOM[1][d]), "an empty domain has no pointers");
    sym_reach("end");
}
