// Native implementation of the harness API: replays a list of concrete inputs.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <thread>
#include <dlfcn.h>
struct In { std::string name; unsigned long long v; };
static std::vector<In> g_in; static size_t g_pos = 0;
static std::vector<long long> g_params;
static bool g_allow_abort = false;
static const int RC_VIOLATION = 71, RC_INVALID = 72;
static uint64_t next(const char *name) {
    if (g_pos >= g_in.size()) { return 0; } // inputs beyond the recorded prefix
    In &i = g_in[g_pos++];
    if (i.name != name) { printf("REPLAY-MISMATCH expected %s got %s\n", i.name.c_str(), name); fflush(stdout); _Exit(RC_INVALID); }
    return i.v;
}
extern "C" {
uint8_t sym_u8(const char *n) { return (uint8_t) next(n); }
uint16_t sym_u16(const char *n) { return (uint16_t) next(n); }
uint32_t sym_u32(const char *n) { return (uint32_t) next(n); }
uint64_t sym_u64(const char *n) { return next(n); }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; ++i) ((uint8_t *) p)[i] = (uint8_t) next(name); }
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _Exit(RC_INVALID); } }
void sym_assert(int c, const char *msg) { if (!c) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _Exit(RC_VIOLATION); } }
void sym_reach(const char *) { }
int64_t sym_param(int i) { return i < (int) g_params.size() ? g_params[i] : 0; }
uint32_t sym_choose(const char *n, uint32_t k) { uint32_t v = (uint32_t) next(n); return v < k ? v : 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
void sym_observe(const char *n, uint64_t v) { printf("OBSERVE %s 0x%llx\n", n, (unsigned long long) v); fflush(stdout); }
int sym_engine(void) { return 0; }
void sym_malloc_reuse(int) { }
static int64_t g_fail = -1; static int g_faults = 0;
void sym_fail_alloc(uint64_t n) { g_fail = (int64_t) n; }
uint64_t sym_heap_live(void) { return 0; }
void sym_allow_abort(int on) { g_allow_abort = on; }
int sym_faults(void) { return g_faults; }
void sym_yield(int) { std::this_thread::yield(); }
void sym_setenv(const char *k, const char *v) { setenv(k, v, 1); }
void sym_debug(const char *n, uint64_t v) { printf("DEBUG %s 0x%llx\n", n, (unsigned long long) v); }
int sym_valid(const void *, size_t) { return 1; }
static std::vector<std::thread> g_thr;
int sym_thread_create(void (*fn)(void *), void *arg) { g_thr.emplace_back(fn, arg); return (int) g_thr.size(); }
void sym_thread_join(int id) { g_thr[id - 1].join(); }
int harness_fail_now();
int posix_memalign(void **p, size_t al, size_t n) noexcept { if (harness_fail_now()) return 12; *p = aligned_alloc(al, (n + al - 1) / al * al); return *p ? 0 : 12; }
int harness_fail_now() { if (g_fail >= 0 && g_fail-- == 0) { g_faults++; return 1; } return 0; }
}
// usage: prog <entry> <inputs-file> [params...]
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r");
    char name[256]; unsigned long long v;
    while (f && fscanf(f, "%255s %llx", name, &v) == 2) g_in.push_back({ name, v });
    if (f) fclose(f);
    for (int i = 3; i < argc; ++i) g_params.push_back(strtoll(argv[i], nullptr, 0));
    void (*setup)() = (void (*)()) dlsym(RTLD_DEFAULT, "harness_setup");
    void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
    if (setup) setup();
    fn();
    printf("REPLAY-OK\n"); fflush(stdout);
    _Exit(0);
}
