#include "expr.h"
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;

static std::vector<Expr *> g_table(1 << 16);
static size_t g_count = 0;
static uint32_t g_next_id = 0;

static inline uint64_t mixh(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull ^ (h >> 29);
}
static uint64_t hashExpr(const Expr &x) {
    uint64_t h = (uint64_t) x.k * 131 + x.w;
    h = mixh(h, x.aux);
    h = mixh(h, (uint64_t) x.c);
    h = mixh(h, (uint64_t) (x.c >> 64));
    for (int i = 0; i < x.n; ++i) h = mixh(h, x.op[i]->id);
    return h ^ (h >> 31);
}
static bool same(const Expr &a, const Expr &b) {
    if (a.k != b.k || a.w != b.w || a.aux != b.aux || a.n != b.n || a.c != b.c) return false;
    for (int i = 0; i < a.n; ++i) if (a.op[i] != b.op[i]) return false;
    return true;
}
static std::vector<uint64_t> g_hashes(1 << 16);
static E intern(Expr x) {
    if (g_count * 2 > g_table.size()) {
        std::vector<Expr *> nt(g_table.size() * 2);
        size_t m = nt.size() - 1;
        for (Expr *p : g_table) if (p) {
            size_t i = hashExpr(*p) & m;
            while (nt[i]) i = (i + 1) & m;
            nt[i] = p;
        }
        g_table.swap(nt);
    }
    size_t m = g_table.size() - 1, i = hashExpr(x) & m;
    while (g_table[i]) {
        if (same(*g_table[i], x)) return g_table[i];
        i = (i + 1) & m;
    }
    Expr *p = new Expr(x);
    p->id = g_next_id++;
    g_table[i] = p;
    g_count++;
    return p;
}
static E node(K k, unsigned w, uint32_t aux, E a, E b = nullptr, E c = nullptr) {
    Expr x; memset((void *) &x, 0, sizeof(x));
    x.k = k; x.w = (uint16_t) w; x.aux = aux; x.n = (uint8_t) (c ? 3 : b ? 2 : a ? 1 : 0);
    x.op[0] = a; x.op[1] = b; x.op[2] = c; x.c = 0;
    x.fp = (k >= K::FAdd && k <= K::FCvt); x.uf = k == K::UF;
    for (int i = 0; i < x.n; ++i) { x.fp |= x.op[i]->fp; x.uf |= x.op[i]->uf; }
    return intern(x);
}
E mkConst(u128 v, unsigned w) {
    Expr x; memset((void *) &x, 0, sizeof(x));
    x.k = K::Const; x.w = (uint16_t) w; x.c = v & maskw(w);
    if (w > 128) { fprintf(stderr, "mkConst: width %u unsupported\n", w); abort(); }
    return intern(x);
}
static std::unordered_map<std::string, E> g_varmap;
E mkVar(const std::string &name, uint32_t occ, unsigned w) {
    std::string key = name + "#" + std::to_string(occ) + ":" + std::to_string(w);
    auto it = g_varmap.find(key);
    if (it != g_varmap.end()) return it->second;
    Expr x; memset((void *) &x, 0, sizeof(x));
    x.k = K::Var; x.w = (uint16_t) w; x.aux = (uint32_t) g_vars.size();
    g_vars.push_back({ name, occ, w });
    return g_varmap[key] = intern(x);
}
E mkUF(const std::string &name, unsigned w, E a, E b, E c) {
    std::string full = name + "_" + std::to_string(w);
    for (E x : { a, b, c }) if (x) full += "_" + std::to_string(x->w);
    uint32_t id = (uint32_t) (std::find(g_ufs.begin(), g_ufs.end(), full) - g_ufs.begin());
    if (id == g_ufs.size()) g_ufs.push_back(full);
    return node(K::UF, w, id, a, b, c);
}

// ---------------------------------------------------------------- concrete
static double f16_to_d(uint16_t h) {
    int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
    double v;
    if (e == 31) v = m ? NAN : INFINITY;
    else if (e == 0) v = ldexp((double) m, -24);
    else v = ldexp((double) (m + 1024), e - 25);
    return s ? -v : v;
}
// Round a double to half (RNE). NOTE: exact operands only (no double rounding
// for values that are exact doubles).
static uint16_t d_to_f16(double d) {
    uint64_t b; memcpy(&b, &d, 8);
    uint16_t s = (uint16_t) ((b >> 48) & 0x8000);
    if (std::isnan(d)) return (uint16_t) (s | 0x7e00);
    double a = fabs(d);
    if (a >= 65520.0) return (uint16_t) (s | 0x7c00);
    if (a < ldexp(1.0, -14)) {
        double q = nearbyint(ldexp(a, 24)); // host default rounding RNE
        return (uint16_t) (s | (uint16_t) q);
    }
    int e; double f = frexp(a, &e); // a = f * 2^e, f in [.5, 1)
    double q = nearbyint(ldexp(f, 11)); // 11 bits
    if (q == 2048.0) { q = 1024.0; e++; }
    return (uint16_t) (s | (uint16_t) (((e + 14) << 10) + ((int) q - 1024)));
}
template <typename T> static T asF(u128 v);
template <> float asF<float>(u128 v) { uint32_t b = (uint32_t) v; float f; memcpy(&f, &b, 4); return f; }
template <> double asF<double>(u128 v) { uint64_t b = (uint64_t) v; double f; memcpy(&f, &b, 8); return f; }
static u128 frF(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static u128 frF(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
template <typename T> static T roundF(T v, uint32_t mode) {
    switch (mode) { case 1: return std::ceil(v); case 2: return std::floor(v); case 3: return std::trunc(v); case 4: return std::round(v); default: return std::nearbyint(v); }
}
template <typename T> static bool fold_fp(K k, uint32_t aux, const u128 *v, u128 &o) {
    T a = asF<T>(v[0]);
    switch (k) {
        case K::FAdd: o = frF((T) (a + asF<T>(v[1]))); return true;
        case K::FSub: o = frF((T) (a - asF<T>(v[1]))); return true;
        case K::FMul: o = frF((T) (a * asF<T>(v[1]))); return true;
        case K::FDiv: o = frF((T) (a / asF<T>(v[1]))); return true;
        case K::FRem: o = frF((T) std::fmod(a, asF<T>(v[1]))); return true;
        case K::FSqrt: o = frF((T) std::sqrt(a)); return true;
        case K::FFma: o = frF((T) std::fma(a, asF<T>(v[1]), asF<T>(v[2]))); return true;
        case K::FRound: o = frF(roundF<T>(a, aux)); return true;
        case K::FEq: o = a == asF<T>(v[1]); return true;
        case K::FLt: o = a < asF<T>(v[1]); return true;
        case K::FLe: o = a <= asF<T>(v[1]); return true;
        case K::FIsNan: o = std::isnan(a); return true;
        default: return false;
    }
}
static bool fold_fp16(K k, uint32_t aux, const u128 *v, u128 &o) {
    double a = f16_to_d((uint16_t) v[0]);
    double b = (k == K::FAdd || k == K::FSub || k == K::FMul || k == K::FDiv || k == K::FRem || k == K::FEq || k == K::FLt || k == K::FLe || k == K::FFma) ? f16_to_d((uint16_t) v[1]) : 0;
    switch (k) { // +,-,* exact in double; / and sqrt innocuous double rounding (53 >= 2*11+2)
        case K::FAdd: o = d_to_f16(a + b); return true;
        case K::FSub: o = d_to_f16(a - b); return true;
        case K::FMul: o = d_to_f16(a * b); return true;
        case K::FDiv: o = d_to_f16(a / b); return true;
        case K::FRem: o = d_to_f16(std::fmod(a, b)); return true;
        case K::FSqrt: o = d_to_f16(std::sqrt(a)); return true;
        case K::FFma: {
            double p = a * b, c = f16_to_d((uint16_t) v[2]); // p exact
            double s = p + c, bb = s - p, err = (p - (s - bb)) + (c - bb);
            if (std::isfinite(s) && err != 0) { // round-to-odd fixup
                uint64_t bits; memcpy(&bits, &s, 8);
                if (!(bits & 1)) { bool up = (err > 0) == (s > 0); bits += up ? 1 : -1; memcpy(&s, &bits, 8); }
            }
            o = d_to_f16(s); return true;
        }
        case K::FRound: o = d_to_f16(roundF<double>(a, aux)); return true;
        case K::FEq: o = a == b; return true;
        case K::FLt: o = a < b; return true;
        case K::FLe: o = a <= b; return true;
        case K::FIsNan: o = std::isnan(a); return true;
        default: return false;
    }
}
bool foldOp(K k, unsigned w, uint32_t aux, const u128 *v, const unsigned *vw, u128 &o) {
    u128 M = maskw(w);
    switch (k) {
        case K::Add: o = (v[0] + v[1]) & M; return true;
        case K::Sub: o = (v[0] - v[1]) & M; return true;
        case K::Mul: o = (v[0] * v[1]) & M; return true;
        case K::UDiv: o = v[1] ? v[0] / v[1] : M; return true;
        case K::URem: o = v[1] ? v[0] % v[1] : v[0]; return true;
        case K::SDiv: { s128 a = sextw(v[0], w), b = sextw(v[1], w);
            if (b == 0) o = a < 0 ? 1 : M; else if (b == -1) o = (u128) (-(u128) a) & M; else o = (u128) (a / b) & M; return true; }
        case K::SRem: { s128 a = sextw(v[0], w), b = sextw(v[1], w);
            if (b == 0) o = v[0]; else if (b == -1) o = 0; else o = (u128) (a % b) & M; return true; }
        case K::And: o = v[0] & v[1]; return true;
        case K::Or: o = v[0] | v[1]; return true;
        case K::Xor: o = v[0] ^ v[1]; return true;
        case K::Shl: o = v[1] >= w ? 0 : (v[0] << (unsigned) v[1]) & M; return true;
        case K::LShr: o = v[1] >= w ? 0 : v[0] >> (unsigned) v[1]; return true;
        case K::AShr: { s128 a = sextw(v[0], w); unsigned s = v[1] >= w ? w - 1 : (unsigned) v[1]; o = (u128) (a >> s) & M; return true; }
        case K::Concat: o = ((v[0] << vw[1]) | v[1]) & M; return true;
        case K::Extract: o = (v[0] >> aux) & M; return true;
        case K::ZExt: o = v[0]; return true;
        case K::SExt: o = (u128) sextw(v[0], vw[0]) & M; return true;
        case K::Eq: o = v[0] == v[1]; return true;
        case K::Ult: o = v[0] < v[1]; return true;
        case K::Ule: o = v[0] <= v[1]; return true;
        case K::Slt: o = sextw(v[0], vw[0]) < sextw(v[1], vw[0]); return true;
        case K::Sle: o = sextw(v[0], vw[0]) <= sextw(v[1], vw[0]); return true;
        case K::Ite: o = v[0] ? v[1] : v[2]; return true;
        case K::FToSI: case K::FToUI: {
            double d = vw[0] == 16 ? f16_to_d((uint16_t) v[0]) : vw[0] == 32 ? (double) asF<float>(v[0]) : asF<double>(v[0]);
            bool sg = k == K::FToSI;
            d = std::trunc(d);
            double lo = sg ? -ldexp(1.0, (int) w - 1) : 0.0, hi = sg ? ldexp(1.0, (int) w - 1) : ldexp(1.0, (int) w);
            if (!(d >= lo && d < hi)) { o = sg ? (u128) 1 << (w - 1) : M; return true; } // unspecified (x86-like)
            o = d < 0 ? (u128) (s128) d & M : (u128) d & M; return true; }
        case K::SIToF: case K::UIToF: {
            bool neg = k == K::SIToF && sextw(v[0], vw[0]) < 0;
            u128 mag = neg ? (u128) -sextw(v[0], vw[0]) : v[0];
            if (w == 64) { double d = (double) mag; o = frF(neg ? -d : d); }
            else if (w == 32) { float d = (float) mag; o = frF(neg ? -d : d); }
            else { // half: values >= 65520 overflow, smaller ones are exact in double
                double d = mag > 1000000 ? 1e9 : (double) mag; o = d_to_f16(neg ? -d : d); }
            return true; }
        case K::FCvt: {
            if (vw[0] == w) { o = v[0]; return true; }
            if (vw[0] == 16) { double d = f16_to_d((uint16_t) v[0]); o = w == 32 ? frF((float) d) : frF(d); }
            else if (vw[0] == 32) { float f = asF<float>(v[0]); o = w == 64 ? frF((double) f) : (u128) d_to_f16(f); }
            else { double d = asF<double>(v[0]); o = w == 32 ? frF((float) d) : (u128) d_to_f16(d); }
            return true; }
        default: break;
    }
    if (k >= K::FAdd && k <= K::FIsNan) {
        if (vw[0] == 32) return fold_fp<float>(k, aux, v, o);
        if (vw[0] == 64) return fold_fp<double>(k, aux, v, o);
        if (vw[0] == 16) return fold_fp16(k, aux, v, o);
    }
    return false;
}
static E tryFold(K k, unsigned w, uint32_t aux, E a, E b = nullptr, E c = nullptr) {
    if (!a->isConst() || (b && !b->isConst()) || (c && !c->isConst())) return nullptr;
    u128 v[3] = { a->c, b ? b->c : 0, c ? c->c : 0 }, o;
    unsigned vw[3] = { a->w, b ? b->w : 0u, c ? c->w : 0u };
    if (!foldOp(k, w, aux, v, vw, o)) return nullptr;
    return mkConst(o, w);
}
static bool isC(E e, u128 v) { return e->isConst() && e->c == (v & maskw(e->w)); }
static bool isOnes(E e) { return e->isConst() && e->c == maskw(e->w); }

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "mkExtract out of range\n"); abort(); }
    if (E f = tryFold(K::Extract, w, lo, a)) return f;
    switch (a->k) {
        case K::Extract: return mkExtract(a->op[0], lo + a->aux, w);
        case K::Concat: {
            unsigned lw = a->op[1]->w;
            if (lo + w <= lw) return mkExtract(a->op[1], lo, w);
            if (lo >= lw) return mkExtract(a->op[0], lo - lw, w);
            return mkConcat(mkExtract(a->op[0], 0, lo + w - lw), mkExtract(a->op[1], lo, lw - lo));
        }
        case K::ZExt: case K::SExt: {
            unsigned iw = a->op[0]->w;
            if (lo + w <= iw) return mkExtract(a->op[0], lo, w);
            if (a->k == K::ZExt) {
                if (lo >= iw) return mkConst(0, w);
                return mkZExt(mkExtract(a->op[0], lo, iw - lo), w);
            }
            if (lo == 0) return mkSExt(a->op[0], w);
            break;
        }
        case K::And: case K::Or: case K::Xor:
            if (a->op[1]->isConst() || w <= 8)
                return mk2(a->k, mkExtract(a->op[0], lo, w), mkExtract(a->op[1], lo, w));
            break;
        case K::Add: case K::Sub: case K::Mul:
            if (lo == 0) return mk2(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w));
            break;
        case K::Ite:
            if ((a->op[1]->isConst() && a->op[2]->isConst()))
                return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w));
            break;
        default: break;
    }
    return node(K::Extract, w, lo, a);
}
// hi ++ lo when both are pieces of one value that was split (bytes in memory)
static E rejoin(E hi, E lo, int depth = 0) {
    if (hi->isConst() && lo->isConst() && hi->w + lo->w <= 128) return mkConcat(hi, lo);
    if (hi->k == K::Extract) {
        E x = hi->op[0];
        if (hi->aux < lo->w) return nullptr;
        if (lo->k == K::Extract ? lo->op[0] == x && lo->aux + lo->w == hi->aux : hi->aux == lo->w && mkExtract(x, 0, lo->w) == lo)
            return mkExtract(x, hi->aux - lo->w, hi->w + lo->w);
        return nullptr;
    }
    if (depth < 4 && hi->k == lo->k && (hi->k == K::And || hi->k == K::Or || hi->k == K::Xor)) {
        E a = rejoin(hi->op[0], lo->op[0], depth + 1), b = a ? rejoin(hi->op[1], lo->op[1], depth + 1) : nullptr;
        if (a && b) return mk2(hi->k, a, b);
        a = rejoin(hi->op[0], lo->op[1], depth + 1); b = a ? rejoin(hi->op[1], lo->op[0], depth + 1) : nullptr;
        if (a && b) return mk2(hi->k, a, b);
    }
    return nullptr;
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w <= 128) if (E f = tryFold(K::Concat, w, 0, hi, lo)) return f;
    if (isC(hi, 0)) return mkZExt(lo, w);
    if (hi->k == K::Extract) {
        if (lo->k == K::Extract && hi->op[0] == lo->op[0] && hi->aux == lo->aux + lo->w)
            return mkExtract(hi->op[0], lo->aux, w);
        // (extract of x) ++ ((extract of x) ++ rest)
        if (lo->k == K::Concat && lo->op[0]->k == K::Extract && lo->op[0]->op[0] == hi->op[0] &&
            hi->aux == lo->op[0]->aux + lo->op[0]->w)
            return mkConcat(mkExtract(hi->op[0], lo->op[0]->aux, hi->w + lo->op[0]->w), lo->op[1]);
    }
    if (!hi->isConst()) {
        if (E f = rejoin(hi, lo)) return f;
        if (lo->k == K::Concat) if (E f = rejoin(hi, lo->op[0])) return mkConcat(f, lo->op[1]);
    }
    if (hi->k == K::ZExt) // zero bits on top
        return mkZExt(mkConcat(hi->op[0], lo), w);
    if (hi->k == K::Ite && lo->k == K::Ite && hi->op[0] == lo->op[0])
        return mkIte(hi->op[0], mkConcat(hi->op[1], lo->op[1]), mkConcat(hi->op[2], lo->op[2]));
    if (lo->isConst() && hi->k == K::Ite && hi->op[1]->isConst() && hi->op[2]->isConst() && w <= 128)
        return mkIte(hi->op[0], mkConcat(hi->op[1], lo), mkConcat(hi->op[2], lo));
    return node(K::Concat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (w <= 128) if (E f = tryFold(K::ZExt, w, 0, a)) return f;
    if (a->k == K::ZExt) return mkZExt(a->op[0], w);
    if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst())
        return mkIte(a->op[0], mkZExt(a->op[1], w), mkZExt(a->op[2], w));
    return node(K::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (w <= 128) if (E f = tryFold(K::SExt, w, 0, a)) return f;
    if (a->k == K::SExt) return mkSExt(a->op[0], w);
    if (a->k == K::ZExt) return mkZExt(a->op[0], w);
    if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
    return node(K::SExt, w, 0, a);
}
E mkIte(E c, E t, E f) {
    if (c->isConst()) return c->c ? t : f;
    if (t == f) return t;
    if (c->k == K::Xor && isC(c->op[1], 1)) return mkIte(c->op[0], f, t);
    if (t->w == 1) {
        if (isC(t, 1) && isC(f, 0)) return c;
        if (isC(t, 0) && isC(f, 1)) return mkNot(c);
        if (isC(t, 1)) return mkOr(c, f);
        if (isC(f, 0)) return mkAnd(c, t);
        if (isC(t, 0)) return mkAnd(mkNot(c), f);
        if (isC(f, 1)) return mkOr(mkNot(c), t);
    }
    if (c->k == K::Eq && ((c->op[0] == t && c->op[1] == f) || (c->op[0] == f && c->op[1] == t))) return f;
    if (t->k == K::Ite && t->op[0] == c) return mkIte(c, t->op[1], f);
    if (f->k == K::Ite && f->op[0] == c) return mkIte(c, t, f->op[2]);
    return node(K::Ite, t->w, 0, c, t, f);
}
static bool isCmp(K k) { return k == K::Eq || (k >= K::Ult && k <= K::Sle); }
E mk2(K k, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "mk2: width mismatch (%u, %u) kind %d\n", a->w, b->w, (int) k); abort(); }
    unsigned w = isCmp(k) ? 1 : a->w;
    if (a->w <= 128) if (E f = tryFold(k, w, 0, a, b)) return f;
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
    if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    // distribute over ITE with constant arms
    if (b->isConst() && a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst())
        return mkIte(a->op[0], mk2(k, a->op[1], b), mk2(k, a->op[2], b));
    if (a->isConst() && b->k == K::Ite && b->op[1]->isConst() && b->op[2]->isConst())
        return mkIte(b->op[0], mk2(k, a, b->op[1]), mk2(k, a, b->op[2]));
    switch (k) {
        case K::Add:
            if (isC(b, 0)) return a;
            if (b->isConst() && a->k == K::Add && a->op[1]->isConst())
                return mk2(K::Add, a->op[0], mk2(K::Add, a->op[1], b));
            if (w == 1) return mk2(K::Xor, a, b);
            if (a->k == K::Sub && a->op[1] == b) return a->op[0];
            if (b->k == K::Sub && b->op[1] == a) return b->op[0];
            break;
        case K::Sub:
            if (isC(b, 0)) return a;
            if (a == b) return mkConst(0, w);
            if (b->isConst()) return mk2(K::Add, a, mkConst(-b->c, w));
            if (isC(a, 0) && b->k == K::Sub && isC(b->op[0], 0)) return b->op[1];
            if (a->k == K::Add && a->op[0] == b) return a->op[1];
            if (a->k == K::Add && a->op[1] == b) return a->op[0];
            if (a->k == K::Add && b->k == K::Add && a->op[1]->isConst() && b->op[1]->isConst() && a->op[0] == b->op[0])
                return mk2(K::Sub, a->op[1], b->op[1]);
            break;
        case K::Mul:
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (b->isConst() && (b->c & (b->c - 1)) == 0) { // power of two
                unsigned s = 0; while (!((b->c >> s) & 1)) s++;
                return mk2(K::Shl, a, mkConst(s, w));
            }
            break;
        case K::UDiv:
            if (isC(b, 1)) return a;
            if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) {
                unsigned s = 0; while (!((b->c >> s) & 1)) s++;
                return mk2(K::LShr, a, mkConst(s, w));
            }
            if (a->k == K::ZExt && b->isConst() && b->c) { // divide in the narrow type
                unsigned n = a->op[0]->w;
                if ((b->c >> n) == 0) return mkZExt(mk2(K::UDiv, a->op[0], mkConst(b->c, n)), w);
                return mkConst(0, w);
            }
            break;
        case K::URem:
            if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0)
                return mk2(K::And, a, mkConst(b->c - 1, w));
            if (a->k == K::ZExt && b->isConst() && b->c) { // divide in the narrow type
                unsigned n = a->op[0]->w;
                if ((b->c >> n) == 0) return mkZExt(mk2(K::URem, a->op[0], mkConst(b->c, n)), w);
                return a;
            }
            break;
        case K::And:
            if (isC(b, 0)) return b;
            if (isOnes(b) || a == b) return a;
            if (w == 1 && ((a->k == K::Xor && isC(a->op[1], 1) && a->op[0] == b) || (b->k == K::Xor && isC(b->op[1], 1) && b->op[0] == a))) return mkConst(0, 1);
            if (b->isConst()) {
                if (a->k == K::And && a->op[1]->isConst()) return mk2(K::And, a->op[0], mk2(K::And, a->op[1], b));
                u128 m = b->c;
                if ((m & (m + 1)) == 0) { // low mask
                    unsigned n = 0; while ((m >> n) & 1) n++;
                    return mkZExt(mkExtract(a, 0, n), w);
                }
                u128 inv = ~m & maskw(w);
                if ((inv & (inv + 1)) == 0) { // high mask
                    unsigned n = 0; while ((inv >> n) & 1) n++;
                    return mkConcat(mkExtract(a, n, w - n), mkConst(0, n));
                }
                // contiguous mid mask
                unsigned n = 0; while (!((m >> n) & 1)) n++;
                u128 mm = m >> n;
                if ((mm & (mm + 1)) == 0) {
                    unsigned l = 0; while ((mm >> l) & 1) l++;
                    return mkZExt(mkConcat(mkExtract(a, n, l), mkConst(0, n)), w);
                }
                if (a->k == K::ZExt) { unsigned iw = a->op[0]->w; return mkZExt(mk2(K::And, a->op[0], mkConst(m, iw)), w); }
            }
            break;
        case K::Or:
            if (isC(b, 0) || a == b) return a;
            if (isOnes(b)) return b;
            if (w == 1 && ((a->k == K::Xor && isC(a->op[1], 1) && a->op[0] == b) || (b->k == K::Xor && isC(b->op[1], 1) && b->op[0] == a))) return mkConst(1, 1);
            // disjoint pieces: zext(lo) | concat(hi, 0)
            {
                E x = a, y = b;
                for (int i = 0; i < 2; ++i) {
                    if (x->k == K::ZExt) {
                        unsigned lw = x->op[0]->w;
                        if (y->k == K::Concat && isC(y->op[1], 0) && y->op[1]->w >= lw)
                            return mkConcat(y->op[0], mkZExt(x->op[0], y->op[1]->w));
                        if (y->k == K::ZExt && y->op[0]->k == K::Concat && isC(y->op[0]->op[1], 0) && y->op[0]->op[1]->w >= lw)
                            return mkZExt(mkConcat(y->op[0]->op[0], mkZExt(x->op[0], y->op[0]->op[1]->w)), w);
                    }
                    std::swap(x, y);
                }
            }
            break;
        case K::Xor:
            if (isC(b, 0)) return a;
            if (a == b) return mkConst(0, w);
            if (b->isConst() && a->k == K::Xor && a->op[1]->isConst()) return mk2(K::Xor, a->op[0], mk2(K::Xor, a->op[1], b));
            break;
        case K::Shl:
            if (isC(b, 0)) return a;
            if (b->isConst()) {
                if (b->c >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->c;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            break;
        case K::LShr:
            if (isC(b, 0)) return a;
            if (b->isConst()) {
                if (b->c >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->c;
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            break;
        case K::AShr:
            if (isC(b, 0)) return a;
            if (b->isConst()) {
                unsigned s = b->c >= w ? w - 1 : (unsigned) b->c;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            break;
        case K::Eq:
            if (a == b) return mkConst(1, 1);
            if (a->w == 1 && b->isConst()) return b->c ? a : mkNot(a);
            if (b->isConst()) {
                if (a->k == K::ZExt) {
                    unsigned iw = a->op[0]->w;
                    if (b->c >> iw) return mkConst(0, 1);
                    return mkEq(a->op[0], mkConst(b->c, iw));
                }
                if (a->k == K::SExt) {
                    unsigned iw = a->op[0]->w;
                    if (((u128) sextw(b->c & maskw(iw), iw) & maskw(a->w)) != b->c) return mkConst(0, 1);
                    return mkEq(a->op[0], mkConst(b->c, iw));
                }
                if (a->k == K::Concat) {
                    unsigned lw = a->op[1]->w;
                    if (a->op[0]->isConst() || a->op[1]->isConst())
                        return mkAnd(mkEq(a->op[0], mkConst(b->c >> lw, a->op[0]->w)), mkEq(a->op[1], mkConst(b->c, lw)));
                }
                if (a->k == K::Add && a->op[1]->isConst()) return mkEq(a->op[0], mk2(K::Sub, b, a->op[1]));
                if (a->k == K::Xor && a->op[1]->isConst()) return mkEq(a->op[0], mk2(K::Xor, b, a->op[1]));
                if (a->k == K::Ite) {
                    if (a->op[1]->isConst() && a->op[1]->c != b->c) return mkAnd(mkNot(a->op[0]), mkEq(a->op[2], b));
                    if (a->op[2]->isConst() && a->op[2]->c != b->c) return mkAnd(a->op[0], mkEq(a->op[1], b));
                }
            }
            if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return mkEq(a->op[0], b->op[0]);
            if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mkEq(a->op[0], b->op[0]);
            if (a->k == K::Add && b->k == K::Add && a->op[1] == b->op[1]) return mkEq(a->op[0], b->op[0]);
            break;
        case K::Ult:
            if (a == b || isC(b, 0) || isOnes(a)) return mkConst(0, 1);
            if (isC(b, 1)) return mkEq(a, mkConst(0, a->w));
            if (isC(a, 0)) return mkNot(mkEq(b, mkConst(0, b->w)));
            if (a->k == K::ZExt && b->isConst()) {
                unsigned iw = a->op[0]->w;
                if (b->c >> iw) return mkConst(1, 1);
                return mk2(K::Ult, a->op[0], mkConst(b->c, iw));
            }
            if (b->k == K::ZExt && a->isConst()) {
                unsigned iw = b->op[0]->w;
                if (a->c >> iw) return mkConst(0, 1);
                return mk2(K::Ult, mkConst(a->c, iw), b->op[0]);
            }
            if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return mk2(K::Ult, a->op[0], b->op[0]);
            break;
        case K::Ule: return mkNot(mk2(K::Ult, b, a));
        case K::Slt:
            if (a == b) return mkConst(0, 1);
            if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mk2(K::Slt, a->op[0], b->op[0]);
            if (a->k == K::ZExt && b->isConst() && a->op[0]->w < a->w) { // a >= 0
                if (sextw(b->c, b->w) <= 0) return mkConst(0, 1);
                return mk2(K::Ult, a, b);
            }
            if (b->k == K::ZExt && a->isConst() && b->op[0]->w < b->w) {
                if (sextw(a->c, a->w) < 0) return mkConst(1, 1);
                return mk2(K::Ult, a, b);
            }
            break;
        case K::Sle: return mkNot(mk2(K::Slt, b, a));
        default: break;
    }
    return node(k, w, 0, a, b);
}
E mkFp1(K k, E a, unsigned w, uint32_t aux) {
    if (k == K::FCvt && a->w == w) return a;
    if (E f = tryFold(k, w, aux, a)) return f;
    // f16 arithmetic carried out in f32 and rounded once more is exact f16
    // arithmetic (24 >= 2 * 11 + 2 significant bits)
    if (k == K::FCvt && w == 16 && a->w == 32 && (a->k == K::FAdd || a->k == K::FSub || a->k == K::FMul || a->k == K::FDiv || a->k == K::FSqrt)) {
        E o[2] = {};
        bool ok = true;
        for (int i = 0; i < a->n && ok; ++i) {
            E x = a->op[i];
            if (x->k == K::FCvt && x->op[0]->w == 16) o[i] = x->op[0];
            else if (x->isConst()) {
                E h = tryFold(K::FCvt, 16, 0, x), b = h ? tryFold(K::FCvt, 32, 0, h) : nullptr;
                if (b == x) o[i] = h; else ok = false;
            } else ok = false;
        }
        if (ok) return a->n == 1 ? mkFp1(a->k, o[0], 16) : mkFp2(a->k, o[0], o[1]);
    }
    return node(k, w, aux, a);
}
// x as an operand of a floating point operation: x * 1 and x - 0 only differ
// from x in the payload of a NaN, which no such operation distinguishes
static E fpOperand(E x) {
    unsigned mb = x->w == 16 ? 10 : x->w == 32 ? 23 : 52;
    u128 one = (maskw(x->w - mb - 2) << mb);
    while (1) {
        if (x->k == K::FMul && isC(x->op[0], one)) x = x->op[1];
        else if (x->k == K::FMul && isC(x->op[1], one)) x = x->op[0];
        else if (x->k == K::FSub && isC(x->op[1], 0)) x = x->op[0];
        else if (x->k == K::Ite && x->op[0]->k == K::FIsNan && x->op[0]->op[0] == x->op[2] && isC(x->op[1], maskw(x->w - mb - 1) << mb | (u128) 1 << (mb - 1))) x = x->op[2];
        else return x;
    }
}
E mkFp2(K k, E a, E b) {
    if (k != K::FRem) { a = fpOperand(a); b = fpOperand(b); }
    unsigned w = (k == K::FEq || k == K::FLt || k == K::FLe) ? 1 : a->w;
    if (E f = tryFold(k, w, 0, a, b)) return f;
    if (k == K::FAdd) { // u + 0 is never -0: adding another zero changes nothing
        auto zero = [&](E x) { return isC(x, 0) || isC(x, (u128) 1 << (w - 1)); };
        auto norm = [&](E x) { return x->k == K::FAdd && (isC(x->op[0], 0) || isC(x->op[1], 0)); };
        if (zero(b) && norm(a)) return a;
        if (zero(a) && norm(b)) return b;
    }
    if ((k == K::FAdd || k == K::FMul || k == K::FEq) && a->id > b->id) std::swap(a, b);
    return node(k, w, 0, a, b);
}
E mkFma(E a, E b, E c) {
    a = fpOperand(a); b = fpOperand(b); c = fpOperand(c);
    unsigned mb = a->w == 16 ? 10 : a->w == 32 ? 23 : 52;
    u128 one = (maskw(a->w - mb - 2) << mb);
    if (isC(a, one)) return mkFp2(K::FAdd, b, c);
    if (isC(b, one)) return mkFp2(K::FAdd, a, c);
    if (E f = tryFold(K::FFma, a->w, 0, a, b, c)) return f;
    if (a->id > b->id) std::swap(a, b);
    return node(K::FFma, a->w, 0, a, b, c);
}
static void collect(E e, std::vector<uint32_t> &out, std::unordered_map<E, bool> &seen) {
    std::vector<E> st { e };
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (x->k == K::Const || !seen.emplace(x, true).second) continue;
        if (x->k == K::Var) { out.push_back(x->aux); continue; }
        if (x->vars) { out.insert(out.end(), x->vars->begin(), x->vars->end()); continue; }
        for (int i = 0; i < x->n; ++i) st.push_back(x->op[i]);
    }
}
const std::vector<uint32_t> &exprVars(E e) {
    if (!e->vars) {
        std::vector<uint32_t> *v = new std::vector<uint32_t>();
        std::unordered_map<E, bool> seen;
        collect(e, *v, seen);
        std::sort(v->begin(), v->end());
        v->erase(std::unique(v->begin(), v->end()), v->end());
        e->vars = v;
    }
    return *e->vars;
}
u128 Evaluator::eval(E e) {
    if (e->k == K::Const) return e->c;
    if (e->k == K::Var) {
        auto it = a.find(e->aux);
        return it == a.end() ? 0 : it->second & maskw(e->w);
    }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 r = 0;
    if (e->k == K::Ite) {
        r = eval(e->op[0]) ? eval(e->op[1]) : eval(e->op[2]);
    } else if (e->k == K::UF || e->w > 128 || (e->n && e->op[0]->w > 128)) {
        ok = false;
    } else {
        u128 v[3]; unsigned vw[3];
        for (int i = 0; i < e->n; ++i) { v[i] = eval(e->op[i]); vw[i] = e->op[i]->w; }
        if (!foldOp(e->k, e->w, e->aux, v, vw, r)) ok = false;
    }
    memo[e] = r;
    return r;
}
static const char *kname[] = { "const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","fround","feq","flt","fle","fisnan","ftosi","ftoui","sitof","uitof","fcvt","uf" };
std::string exprStr(E e, int d) {
    if (e->k == K::Const) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long) e->c, e->w); return b; }
    if (e->k == K::Var) return g_vars[e->aux].name + "#" + std::to_string(g_vars[e->aux].occ);
    if (d == 0) return "..";
    std::string s = std::string("(") + (e->k == K::UF ? g_ufs[e->aux].c_str() : kname[(int) e->k]);
    if (e->k == K::Extract) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
    for (int i = 0; i < e->n; ++i) s += " " + exprStr(e->op[i], d - 1);
    return s + ")";
}
