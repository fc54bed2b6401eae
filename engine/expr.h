// Hash-consed bit-vector / floating point expression DAG.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include <cmath>
#include <cstring>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite,
    // Floating point (operands are bit patterns; format given by operand width)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FRound, // FRound: aux = 0 RNE 1 up 2 down 3 zero 4 RNA
    FEq, FLt, FLe, FIsNan,
    FToSI, FToUI, SIToF, UIToF, FCvt,
    UF
};

struct Expr {
    K k;
    uint8_t n;          // number of operands
    uint16_t w;         // width in bits
    uint32_t aux;       // Extract: low bit. Var: index. UF: function id
    uint32_t id;
    bool fp, uf;        // subtree contains FP ops / UFs
    u128 c;             // constant value
    const Expr *op[3];
    mutable const std::vector<uint32_t> *vars = nullptr;
    bool isConst() const { return k == K::Const; }
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (s128) v;
    u128 s = (u128) 1 << (w - 1);
    return (s128) ((v ^ s) - s);
}

struct VarInfo { std::string name; uint32_t occ; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, uint32_t occ, unsigned w);
E mkUF(const std::string &name, unsigned w, E a, E b = nullptr, E c = nullptr);
E mk2(K k, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkFp1(K k, E a, unsigned w, uint32_t aux = 0);
E mkFp2(K k, E a, E b);
E mkFma(E a, E b, E c);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkNot(E a) { return mk2(K::Xor, a, mkConst(1, 1)); }
inline E mkAnd(E a, E b) { return mk2(K::And, a, b); }
inline E mkOr(E a, E b) { return mk2(K::Or, a, b); }
inline E mkEq(E a, E b) { return mk2(K::Eq, a, b); }
const std::vector<uint32_t> &exprVars(E e);
std::string exprStr(E e, int depth = 6);

// Concrete semantics, shared by the folder, the evaluator and the interpreter
bool foldOp(K k, unsigned w, uint32_t aux, const u128 *v, const unsigned *vw, u128 &out);

typedef std::unordered_map<uint32_t, u128> Assignment; // var index -> value
// Evaluate; returns false if the expression involves UFs
struct Evaluator {
    const Assignment &a;
    std::unordered_map<E, u128> memo;
    bool ok = true;
    explicit Evaluator(const Assignment &a) : a(a) { }
    u128 eval(E e);
};
