// Harness API. In the symbolic engine these are builtins; natively they read
// the concrete inputs of a witness / counterexample from a replay file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
extern "C" {
uint8_t  sym_u8 (const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(int cond);
void sym_assert(int cond, const char *msg);
void sym_reach(const char *id);
int64_t sym_param(int i);
uint32_t sym_choose(const char *name, uint32_t n);   // forks into n alternatives
uint64_t sym_concretize(uint64_t v);
int sym_is_symbolic(uint64_t v);
void sym_observe(const char *name, uint64_t v);      // compared against the native run
int sym_engine(void);                                // 1 in the engine, 0 natively
void sym_malloc_reuse(int on);
void sym_fail_alloc(uint64_t nth);                   // the nth-next allocation fails
uint64_t sym_heap_live(void);
void sym_allow_abort(int on);
int sym_faults(void);
void sym_yield(int blocked);
void sym_setenv(const char *k, const char *v);
void sym_debug(const char *name, uint64_t v);
int sym_valid(const void *p, size_t n);
int sym_thread_create(void (*fn)(void *), void *arg);
void sym_thread_join(int id);
}
static inline float  sym_f32(const char *n) { uint32_t v = sym_u32(n); float f; memcpy(&f, &v, 4); return f; }
static inline double sym_f64(const char *n) { uint64_t v = sym_u64(n); double f; memcpy(&f, &v, 8); return f; }
