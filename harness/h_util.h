// Shared helpers of the harnesses. All checks go through the public jit_* API.
#pragma once
#include "jit_setup.h"
#include <drjit-core/half.h>
#include <drjit-core/nanostl.h>
#include <string.h>
#include <type_traits>
#include <limits>
#include <stdexcept>
#define ENTRY extern "C" __attribute__((used)) void
static const JitBackend BK = JitBackend::LLVM;
typedef _Float16 f16;
template <typename T> struct VT;
template <> struct VT<bool>     { static const VarType v = VarType::Bool;    static const bool flt = false; };
template <> struct VT<int8_t>   { static const VarType v = VarType::Int8;    static const bool flt = false; };
template <> struct VT<uint8_t>  { static const VarType v = VarType::UInt8;   static const bool flt = false; };
template <> struct VT<int16_t>  { static const VarType v = VarType::Int16;   static const bool flt = false; };
template <> struct VT<uint16_t> { static const VarType v = VarType::UInt16;  static const bool flt = false; };
template <> struct VT<int32_t>  { static const VarType v = VarType::Int32;   static const bool flt = false; };
template <> struct VT<uint32_t> { static const VarType v = VarType::UInt32;  static const bool flt = false; };
template <> struct VT<int64_t>  { static const VarType v = VarType::Int64;   static const bool flt = false; };
template <> struct VT<uint64_t> { static const VarType v = VarType::UInt64;  static const bool flt = false; };
template <> struct VT<f16>      { static const VarType v = VarType::Float16; static const bool flt = true; };
template <> struct VT<float>    { static const VarType v = VarType::Float32; static const bool flt = true; };
template <> struct VT<double>   { static const VarType v = VarType::Float64; static const bool flt = true; };
template <size_t N> struct UI;
template <> struct UI<1> { typedef uint8_t t; typedef int8_t s; };
template <> struct UI<2> { typedef uint16_t t; typedef int16_t s; };
template <> struct UI<4> { typedef uint32_t t; typedef int32_t s; };
template <> struct UI<8> { typedef uint64_t t; typedef int64_t s; };
template <typename T> using uint_of = typename UI<sizeof(T)>::t;
template <typename A, typename B> static inline A bits(B b) { static_assert(sizeof(A) == sizeof(B), ""); A a; __builtin_memcpy(&a, &b, sizeof(A)); return a; }
template <typename T> static inline T sym(const char *n) {
    if constexpr (std::is_same_v<T, bool>) { uint8_t v = sym_u8(n); sym_assume(v <= 1); bool b; memcpy(&b, &v, 1); return b; }
    else if constexpr (sizeof(T) == 1) return bits<T>(sym_u8(n));
    else if constexpr (sizeof(T) == 2) return bits<T>(sym_u16(n));
    else if constexpr (sizeof(T) == 4) return bits<T>(sym_u32(n));
    else return bits<T>(sym_u64(n));
}
template <typename T> static inline uint64_t raw(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> static inline bool is_nan(T v) { if constexpr (VT<T>::flt) return v != v; else return false; }
/// Equal values; NaN payloads are not part of the contract
template <typename T> static inline int same(T a, T b) {
    if constexpr (VT<T>::flt) return (bits<uint_of<T>>(a) == bits<uint_of<T>>(b)) | (is_nan(a) & is_nan(b));
    else return a == b;
}
/// Branchless selection
template <typename T> static T choose(bool c, T a, T b) { using U = uint_of<T>; U m = (U) 0 - (U) c; return bits<T>((U) ((bits<U>(a) & m) | (bits<U>(b) & (U) ~m))); }
/// Records a value for the comparison with the native run (all NaNs are alike)
template <typename T> static void observe(const char *n, T v) {
    uint64_t m = (uint64_t) 0 - (uint64_t) is_nan(v);
    sym_observe(n, raw(v) | m);
}
// ---- variables -----------------------------------------------------------
template <typename T> static uint32_t arr(const T *p, size_t n) { return jit_var_mem_copy(BK, VT<T>::v, p, n, 1); }
template <typename T> static uint32_t lit(T v, size_t n = 1) { return jit_var_literal(BK, VT<T>::v, &v, n, 0); }
template <typename T> static uint32_t opaque(T v, size_t n = 1) { return jit_var_literal(BK, VT<T>::v, &v, n, 1); }
static uint32_t counter(size_t n) { return jit_var_counter(BK, n); }
/// Evaluates the variable and copies its contents out
template <typename T> static void fetch(uint32_t v, T *out, size_t n) {
    sym_assert(jit_var_type(v) == VT<T>::v, "the result has the expected type");
    sym_assert(jit_var_size(v) == n, "the result has the expected size");
    void *p = nullptr;
    uint32_t w = jit_var_data(v, &p);
    jit_sync_thread();
    memcpy(out, p, n * sizeof(T));
    jit_var_dec_ref(w);
}
static void drop(uint32_t v) { jit_var_dec_ref(v); }
struct Vars { // releases a set of handles
    uint32_t v[32]; int n = 0;
    uint32_t operator()(uint32_t i) { v[n++] = i; return i; }
    ~Vars() { while (n) jit_var_dec_ref(v[--n]); }
};
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <typename F> static bool raises(F f) {
    try { f(); } catch (const std::runtime_error &) { return true; }
    return false;
}
#define DISPATCH_INT(vt, ...) switch ((VarType) (vt)) { \
    case VarType::Int8: { using T = int8_t; __VA_ARGS__; } break; case VarType::UInt8: { using T = uint8_t; __VA_ARGS__; } break; \
    case VarType::Int16: { using T = int16_t; __VA_ARGS__; } break; case VarType::UInt16: { using T = uint16_t; __VA_ARGS__; } break; \
    case VarType::Int32: { using T = int32_t; __VA_ARGS__; } break; case VarType::UInt32: { using T = uint32_t; __VA_ARGS__; } break; \
    case VarType::Int64: { using T = int64_t; __VA_ARGS__; } break; case VarType::UInt64: { using T = uint64_t; __VA_ARGS__; } break; default: break; }
#define DISPATCH_FLT(vt, ...) switch ((VarType) (vt)) { \
    case VarType::Float16: { using T = f16; __VA_ARGS__; } break; case VarType::Float32: { using T = float; __VA_ARGS__; } break; \
    case VarType::Float64: { using T = double; __VA_ARGS__; } break; default: break; }
#define DISPATCH_FLT_CASES(F) case VarType::Float16: F<f16>(); break; case VarType::Float32: F<float>(); break; case VarType::Float64: F<double>(); break;
#define DISPATCH_ALL(vt, ...) do { if ((VarType) (vt) == VarType::Bool) { using T = bool; __VA_ARGS__; } else { DISPATCH_INT(vt, __VA_ARGS__) DISPATCH_FLT(vt, __VA_ARGS__) } } while (0)
