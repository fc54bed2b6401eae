// Models of the external environment: harness API, libc, C++ runtime, JIT.
#include "engine.h"
#include <llvm/IR/Verifier.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/AsmParser/Parser.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdio>
using namespace llvm;

#define B(name) builtins[name] = [](Exec &ex, State &st, CallInfo &ci)
#define U64(i) ex.u64(st, ci.args[i], 64, ci.target->name.c_str())
#define U32(i) (uint32_t) ex.u64(st, ci.args[i], 32, ci.target->name.c_str())

static void err(Exec &ex, State &st, const char *kind, const std::string &msg) {
    if (ex.cfg.verbose) fprintf(stderr, "[%s] %s\n%s", kind, msg.c_str(), ex.backtrace(st).c_str());
    ex.report(st, kind, msg);
    throw Terminate{ "error", msg };
}
static void setErrno(Exec &ex, State &st, int v);

// copy [src, src+n) to dst, preserving symbolic bytes
static void copyMem(Exec &ex, State &st, uint64_t dst, uint64_t src, uint64_t n, const char *what) {
    if (!n) return;
    ex.checkAccess(st, src, n, "read");
    ex.checkAccess(st, dst, n, "write");
    Obj *d = ex.writable(st, dst);
    Obj *s = ex.find(st, src);
    if (d->kind == OK::Const) err(ex, st, "memory", "write to read-only memory");
    uint64_t so = src - s->addr, dof = dst - d->addr;
    if (d == s) {
        memmove(d->c.data() + dof, d->c.data() + so, n);
        if (!d->s.empty()) std::memmove(d->s.data() + dof, d->s.data() + so, n * sizeof(E));
        return;
    }
    memcpy(d->c.data() + dof, s->c.data() + so, n);
    if (!s->s.empty()) {
        if (d->s.empty()) d->s.resize(d->size, nullptr);
        for (uint64_t i = 0; i < n; ++i) d->s[dof + i] = s->s[so + i];
    } else if (!d->s.empty())
        for (uint64_t i = 0; i < n; ++i) d->s[dof + i] = nullptr;
}
static void setMem(Exec &ex, State &st, uint64_t dst, const Val &v, uint64_t n) {
    if (!n) return;
    ex.checkAccess(st, dst, n, "write");
    Obj *d = ex.writable(st, dst);
    if (d->kind == OK::Const) err(ex, st, "memory", "write to read-only memory");
    uint64_t o = dst - d->addr;
    if (v.e) {
        E b = mkExtract(v.e, 0, 8);
        for (uint64_t i = 0; i < n; ++i) ex.writeMem(st, dst + i, 1, Val::sym(b));
        return;
    }
    memset(d->c.data() + o, (int) v.c, n);
    if (!d->s.empty()) for (uint64_t i = 0; i < n; ++i) d->s[o + i] = nullptr;
}
// memory operation length that may be symbolic
static uint64_t len(Exec &ex, State &st, const Val &v, const char *what) { return ex.u64(st, v, 64, what); }
static uint64_t ptr(Exec &ex, State &st, const Val &v, const char *what) { return ex.u64(st, v, 64, what); }

static std::string cstr(Exec &ex, State &st, uint64_t a) {
    std::string s;
    for (;;) {
        Val b = ex.readMem(st, a++, 1);
        uint64_t c = b.e ? ex.u64(st, b, 8, "string byte") : (uint64_t) b.c;
        if (!c) break;
        s += (char) c;
        if (s.size() > (1u << 24)) err(ex, st, "memory", "unterminated string");
    }
    return s;
}
static void writeBytes(Exec &ex, State &st, uint64_t a, const void *p, uint64_t n) {
    if (!n) return;
    ex.checkAccess(st, a, n, "write");
    Obj *d = ex.writable(st, a);
    uint64_t o = a - d->addr;
    memcpy(d->c.data() + o, p, n);
    if (!d->s.empty()) for (uint64_t i = 0; i < n; ++i) d->s[o + i] = nullptr;
}
static std::string bytesOf(Exec &ex, State &st, uint64_t a, uint64_t n) {
    if (!n) return "";
    ex.checkAccess(st, a, n, "read");
    Obj *o = ex.find(st, a);
    uint64_t off = a - o->addr;
    if (!o->s.empty())
        for (uint64_t i = 0; i < n; ++i)
            if (o->s[off + i]) throw Terminate{ "unsupported", "symbolic bytes in concrete text" };
    return std::string((char *) o->c.data() + off, n);
}

// printf-style formatting. 'next(fp)' supplies the next variadic argument.
static std::string format(Exec &ex, State &st, const std::string &f, const std::function<Val(bool)> &next) {
    std::string out;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { out += f[i]; continue; }
        std::string spec = "%";
        i++;
        int lng = 0;
        for (; i < f.size(); ++i) {
            char c = f[i];
            if (c == '*') { int w = (int) (uint32_t) ex.u64(st, next(false), 64, "printf width"); spec += std::to_string(w); continue; }
            if (c == 'l') { lng++; continue; }
            if (c == 'z' || c == 't' || c == 'j') { lng = 2; continue; }
            if (c == 'h') { lng--; continue; }
            if (strchr("0123456789+-# .", c)) { spec += c; continue; }
            break;
        }
        char c = i < f.size() ? f[i] : 0;
        char buf[512];
        switch (c) {
            case '%': out += '%'; break;
            case 'c': { uint64_t v = ex.u64(st, next(false), 64, "printf"); spec += c; snprintf(buf, sizeof(buf), spec.c_str(), (int) v); out += buf; break; }
            case 's': {
                uint64_t p = ex.u64(st, next(false), 64, "printf");
                std::string s;
                size_t dot = spec.find('.');
                if (dot != std::string::npos) {
                    long n = atol(spec.c_str() + dot + 1);
                    for (long k = 0; k < n; ++k) { Val b = ex.readMem(st, p + k, 1); uint64_t ch = ex.u64(st, b, 8, "string byte"); if (!ch) break; s += (char) ch; }
                } else s = p ? cstr(ex, st, p) : "(null)";
                int w = atoi(spec.c_str() + (spec.size() > 1 && spec[1] == '-' ? 2 : 1));
                bool left = spec.size() > 1 && spec[1] == '-';
                while ((int) s.size() < w) { if (left) s += ' '; else s = ' ' + s; }
                out += s; break; }
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
                uint64_t v = ex.u64(st, next(false), 64, "printf");
                bool sg = c == 'd' || c == 'i';
                if (lng == -2) v = sg ? (uint64_t) (int64_t) (int8_t) v : (uint8_t) v;
                else if (lng == -1) v = sg ? (uint64_t) (int64_t) (int16_t) v : (uint16_t) v;
                else if (lng == 0) v = sg ? (uint64_t) (int64_t) (int32_t) v : (uint32_t) v;
                spec += "ll"; spec += c;
                snprintf(buf, sizeof(buf), spec.c_str(), (unsigned long long) v);
                out += buf; break; }
            case 'p': { uint64_t v = ex.u64(st, next(false), 64, "printf"); snprintf(buf, sizeof(buf), "0x%llx", (unsigned long long) v); out += buf; break; }
            case 'f': case 'g': case 'e': case 'G': case 'F': case 'a': case 'E': {
                Val v = next(true);
                uint64_t b = ex.u64(st, v, 64, "printf");
                double d; memcpy(&d, &b, 8);
                spec += c; snprintf(buf, sizeof(buf), spec.c_str(), d); out += buf; break; }
            default: throw Terminate{ "unsupported", "printf format " + f };
        }
    }
    return out;
}
static std::function<Val(bool)> vaList(Exec &ex, State &st, uint64_t va) {
    // honours gp_offset / overflow_arg_area; arguments all live in the overflow area
    auto cur = std::make_shared<uint64_t>((uint64_t) ex.readMem(st, va + 8, 8).c);
    return [&ex, &st, cur](bool) { Val v = ex.readMem(st, *cur, 8); *cur += 8; return v; };
}
static std::function<Val(bool)> argList(Exec &ex, State &st, CallInfo &ci, size_t first) {
    auto i = std::make_shared<size_t>(first);
    return [&ex, &st, &ci, i](bool) -> Val {
        if (*i >= ci.args.size()) throw Terminate{ "error", "printf: too few arguments" };
        size_t k = (*i)++;
        Type *t = ci.cb->getArgOperand((unsigned) k)->getType();
        unsigned w = ex.bits(t);
        Val v = ci.args[k];
        if (v.e && w < 64) return Val::sym(mkSExt(v.e, 64));
        return v;
    };
}
static Val outN(Exec &ex, State &st, uint64_t dst, uint64_t n, const std::string &s) {
    if (n) {
        uint64_t k = std::min<uint64_t>(n - 1, s.size());
        writeBytes(ex, st, dst, s.c_str(), k);
        char z = 0; writeBytes(ex, st, dst + k, &z, 1);
    }
    return Val((uint32_t) s.size());
}

static E fromBool(const Val &v, unsigned w) { return v.e ? mkNot(mkEq(v.e, mkConst(0, w))) : mkConst(v.c != 0, 1); }

static void throwStd(Exec &ex, State &st, CallInfo &ci, const char *ti, const std::string &msg) {
    uint64_t t = 0;
    if (GlobalValue *g = ex.mod->getNamedValue(ti)) t = ex.gaddr[g];
    if (!t) {
        // not referenced by the program: synthesize a type-info object
        static std::map<std::string, uint64_t> synth;
        t = ex.allocHeap(st, 16, 16, OK::Mmap, ti);
    }
    uint64_t e = ex.allocHeap(st, 16, 16, OK::Mmap, "exception"), m = ex.allocHeap(st, msg.size() + 1, 16, OK::Mmap, "what");
    writeBytes(ex, st, m, msg.c_str(), msg.size() + 1);
    ex.writeMem(st, e, 8, Val((u128) 0));
    static uint64_t vt = 0;
    if (!vt) vt = 1;
    // vtable: { dtor, dtor, what }
    uint64_t tab = ex.allocHeap(st, 24, 16, OK::Mmap, "vtable for std::exception");
    ex.writeMem(st, tab, 8, Val(ex.builtinFunc("__exc_dtor")->addr));
    ex.writeMem(st, tab + 8, 8, Val(ex.builtinFunc("__exc_dtor")->addr));
    ex.writeMem(st, tab + 16, 8, Val(ex.builtinFunc("__exc_what")->addr));
    ex.writeMem(st, e, 8, Val(tab));
    ex.writeMem(st, e + 8, 8, Val(m));
    st.exc[e] = ExcInfo{ t, 0, 0, 1 };
    ci.threw = true;
    ex.unwind(st, e, false);
}

struct JitFn { Function *f; GlobalVariable *callables; int64_t delta; };
static std::vector<JitFn> g_jitFns;
static const uint64_t JIT_MAGIC = 0x464e5554494a5244ull;

static Val fmin_(Exec &ex, const Val &a, const Val &b, unsigned w, bool max) {
    E x = toE(a, w), y = toE(b, w);
    E lt = max ? mkFp2(K::FLt, y, x) : mkFp2(K::FLt, x, y); // x preferred
    E r = mkIte(lt, x, y);
    r = mkIte(mkFp1(K::FIsNan, y, 1), x, r);
    r = mkIte(mkFp1(K::FIsNan, x, 1), y, r);
    return Val::sym(r);
}
// IEEE-754-2019 minimum / maximum: NaN propagates, -0 orders before +0
static Val fminimum(const Val &a, const Val &b, unsigned w, bool max) {
    E x = toE(a, w), y = toE(b, w);
    E lt = max ? mkFp2(K::FLt, y, x) : mkFp2(K::FLt, x, y);
    E eq = mkFp2(K::FEq, x, y);
    E r = mkIte(lt, x, mkIte(eq, mk2(max ? K::And : K::Or, x, y), y));
    unsigned mb = w == 16 ? 10 : w == 32 ? 23 : 52;
    E nan = mkConst(maskw(w - mb - 1) << mb | (u128) 1 << (mb - 1), w);
    r = mkIte(mkOr(mkFp1(K::FIsNan, x, 1), mkFp1(K::FIsNan, y, 1)), nan, r);
    return Val::sym(r);
}
static Val ctz(const Val &v, unsigned w, bool lead, bool zeroPoison) {
    (void) zeroPoison;
    E x = toE(v, w);
    E r = mkConst(w, w);
    for (unsigned i = 0; i < w; ++i) {
        unsigned bit = lead ? i : w - 1 - i;
        // last assignment wins: highest priority last
        r = mkIte(mkEq(mkExtract(x, bit, 1), mkConst(1, 1)), mkConst(lead ? w - 1 - bit : bit, w), r);
    }
    return Val::sym(r);
}
static Val popc(const Val &v, unsigned w) {
    if (!v.e) { unsigned n = 0; for (unsigned i = 0; i < w; ++i) n += (v.c >> i) & 1; return Val(n); }
    // logarithmic adder
    E r = mkConst(0, w);
    for (unsigned i = 0; i < w; ++i) r = mk2(K::Add, r, mkZExt(mkExtract(v.e, i, 1), w));
    return Val::sym(r);
}
static Val bitrev(const Val &v, unsigned w) {
    E x = toE(v, w), r = nullptr;
    for (unsigned i = 0; i < w; ++i) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; }
    return Val::sym(r);
}
static Val bswap(const Val &v, unsigned w) {
    E x = toE(v, w), r = nullptr;
    for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
    return Val::sym(r);
}
static Val roundFp(const Val &v, unsigned w, unsigned mode) { return Val::sym(mkFp1(K::FRound, toE(v, w), w, mode)); }
static double asD(u128 v, unsigned w) { if (w == 32) { uint32_t b = (uint32_t) v; float f; memcpy(&f, &b, 4); return f; } uint64_t b = (uint64_t) v; double d; memcpy(&d, &b, 8); return d; }
static Val fpFun(const char *name, double (*fd)(double), float (*ff)(float), const Val &a, unsigned w) {
    if (!a.e) {
        if (w == 32) { float f = ff((float) asD(a.c, 32)); uint32_t b; memcpy(&b, &f, 4); return Val(b); }
        double d = fd(asD(a.c, 64)); uint64_t b; memcpy(&b, &d, 8); return Val(b);
    }
    return Val::sym(mkUF(std::string(name) + (w == 32 ? "f" : w == 64 ? "" : "h"), w, a.e));
}

bool Exec::intrinsic(State &st, const KInst &ki, CallInfo &ci, Val &out) {
    auto *cb = ci.cb;
    auto &a = ci.args;
    Type *ty = cb->getType();
    Exec &ex = *this;
    unsigned w = bits(ty->getScalarType());
    auto lanes1 = [&](const std::function<Val(const Val &, unsigned)> &f) {
        Type *t0 = cb->getArgOperand(0)->getType();
        unsigned sw = bits(t0->getScalarType());
        if (ty->isVectorTy()) out = mapLanes(ty, [&](unsigned i) { return f(a[0].at(i), sw); });
        else out = f(a[0], sw);
        return true;
    };
    auto lanes2 = [&](const std::function<Val(const Val &, const Val &, unsigned)> &f) {
        if (ty->isVectorTy()) out = mapLanes(ty, [&](unsigned i) { return f(a[0].at(i), a[1].at(i), w); });
        else out = f(a[0], a[1], w);
        return true;
    };
    auto lanes3 = [&](const std::function<Val(const Val &, const Val &, const Val &, unsigned)> &f) {
        if (ty->isVectorTy()) out = mapLanes(ty, [&](unsigned i) { return f(a[0].at(i), a[1].at(i), a[2].at(i), w); });
        else out = f(a[0], a[1], a[2], w);
        return true;
    };
    auto ite = [&](E c, const Val &t, const Val &f, unsigned w) { return Val::sym(mkIte(c, toE(t, w), toE(f, w))); };
    auto lt = [&](K k, const Val &x, const Val &y, unsigned w) { return mk2(k, toE(x, w), toE(y, w)); };
    switch (ki.intrin) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            return true;
        case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::expect: case Intrinsic::expect_with_probability:
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
            out = a[0]; return true;
        case Intrinsic::load_relative: {
            uint64_t b = ptr(ex, st, a[0], "relative table"), o = ptr(ex, st, a[1], "relative offset");
            Val r = ex.readMem(st, b + o, 4); out = Val((u128) (uint64_t) (b + (uint64_t) (int64_t) (int32_t) r.c)); return true; }
        case Intrinsic::is_constant: out = Val((u128) 0); return true;
        case Intrinsic::objectsize: out = Val(maskw(w)); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
            err(*this, st, "trap", "trap instruction reached"); return true;
        case Intrinsic::stacksave: out = Val((u128) 0); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::eh_typeid_for: {
            uint64_t want = (uint64_t) a[0].c;
            auto &id = typeIds[want]; if (!id) id = (uint32_t) typeIds.size();
            out = Val(id); return true; }
        case Intrinsic::threadlocal_address: {
            const GlobalValue *g = cast<GlobalValue>(cb->getArgOperand(0));
            auto key = std::make_pair(g, st.cur);
            auto it = st.tls.find(key);
            if (it == st.tls.end()) {
                auto *gv = cast<GlobalVariable>(g);
                uint64_t sz = std::max<uint64_t>(DL->getTypeAllocSize(gv->getValueType()), 1);
                uint64_t ad = allocHeap(st, sz, 64, OK::Mmap, ("tls " + g->getName().str()).c_str(), 0, 0);
                if (gv->hasInitializer() && !gv->getInitializer()->isNullValue()) {
                    Val v = evalConst(gv->getInitializer());
                    storeType(st, Val(ad), gv->getValueType(), v);
                }
                it = st.tls.emplace(key, ad).first;
            }
            out = Val(it->second); return true; }
        case Intrinsic::thread_pointer: out = Val((u128) (0x1000000 + st.cur)); return true;
        case Intrinsic::vastart: {
            uint64_t va = u64(st, a[0], 64, "va_list");
            Frame &f = st.fr();
            uint64_t area = allocStack(st, f.varargs.size() * 8 + 8, 16, "varargs");
            for (size_t i = 0; i < st.fr().varargs.size(); ++i) {
                Val v = st.fr().varargs[i];
                if (v.e) v = Val::sym(mkZExt(v.e, 64));
                writeMem(st, area + 8 * i, 8, v);
            }
            writeMem(st, va, 4, Val(48)); writeMem(st, va + 4, 4, Val(304));
            writeMem(st, va + 8, 8, Val(area)); writeMem(st, va + 16, 8, Val((u128) 0));
            return true; }
        case Intrinsic::vaend: return true;
        case Intrinsic::vacopy: { uint64_t d = u64(st, a[0], 64, "va"), s = u64(st, a[1], 64, "va"); copyMem(ex, st, d, s, 24, "va_copy"); return true; }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            uint64_t n = len(ex, st, a[2], "memcpy length");
            if (!n) return true;
            uint64_t d = ptr(ex, st, a[0], "memcpy destination"), s = ptr(ex, st, a[1], "memcpy source");
            if (ki.intrin != Intrinsic::memmove && d != s && d < s + n && s < d + n) err(ex, st, "memory", "overlapping memcpy");
            copyMem(ex, st, d, s, n, "memcpy"); return true; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            uint64_t n = len(ex, st, a[2], "memset length");
            if (!n) return true;
            setMem(ex, st, ptr(ex, st, a[0], "memset destination"), a[1], n); return true; }
        // integer
        case Intrinsic::abs: return lanes1([&](const Val &x, unsigned w) { return ite(lt(K::Slt, x, Val((u128) 0), w), binop(K::Sub, Val((u128) 0), x, w), x, w); });
        case Intrinsic::smax: return lanes2([&](const Val &x, const Val &y, unsigned w) { return ite(lt(K::Slt, x, y, w), y, x, w); });
        case Intrinsic::smin: return lanes2([&](const Val &x, const Val &y, unsigned w) { return ite(lt(K::Slt, x, y, w), x, y, w); });
        case Intrinsic::umax: return lanes2([&](const Val &x, const Val &y, unsigned w) { return ite(lt(K::Ult, x, y, w), y, x, w); });
        case Intrinsic::umin: return lanes2([&](const Val &x, const Val &y, unsigned w) { return ite(lt(K::Ult, x, y, w), x, y, w); });
        case Intrinsic::ctpop: return lanes1([&](const Val &x, unsigned w) { return popc(x, w); });
        case Intrinsic::ctlz: return lanes1([&](const Val &x, unsigned w) { return ctz(x, w, true, false); });
        case Intrinsic::cttz: return lanes1([&](const Val &x, unsigned w) { return ctz(x, w, false, false); });
        case Intrinsic::bswap: return lanes1([&](const Val &x, unsigned w) { return bswap(x, w); });
        case Intrinsic::bitreverse: return lanes1([&](const Val &x, unsigned w) { return bitrev(x, w); });
        case Intrinsic::fshl: case Intrinsic::fshr: {
            bool l = ki.intrin == Intrinsic::fshl;
            return lanes3([&](const Val &x, const Val &y, const Val &z, unsigned w) {
                E cat = mkConcat(toE(x, w), toE(y, w));
                E sh = mkZExt(mk2(K::URem, toE(z, w), mkConst(w, w)), 2 * w);
                E r = l ? mkExtract(mk2(K::Shl, cat, sh), w, w) : mkExtract(mk2(K::LShr, cat, sh), 0, w);
                return Val::sym(r);
            }); }
        case Intrinsic::uadd_sat: return lanes2([&](const Val &x, const Val &y, unsigned w) { Val s = binop(K::Add, x, y, w); return ite(lt(K::Ult, s, x, w), Val(maskw(w)), s, w); });
        case Intrinsic::usub_sat: return lanes2([&](const Val &x, const Val &y, unsigned w) { return ite(lt(K::Ult, x, y, w), Val((u128) 0), binop(K::Sub, x, y, w), w); });
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned w = bits(cb->getArgOperand(0)->getType());
            bool sg = ki.intrin == Intrinsic::smul_with_overflow || ki.intrin == Intrinsic::sadd_with_overflow || ki.intrin == Intrinsic::ssub_with_overflow;
            K k = (ki.intrin == Intrinsic::umul_with_overflow || ki.intrin == Intrinsic::smul_with_overflow) ? K::Mul
                : (ki.intrin == Intrinsic::usub_with_overflow || ki.intrin == Intrinsic::ssub_with_overflow) ? K::Sub : K::Add;
            unsigned w2 = k == K::Mul ? std::min(2 * w, 128u) : w + 1;
            E x = toE(a[0], w), y = toE(a[1], w);
            E X = sg ? mkSExt(x, w2) : mkZExt(x, w2), Y = sg ? mkSExt(y, w2) : mkZExt(y, w2);
            E full = mk2(k, X, Y), lo = mkExtract(full, 0, w);
            E back = sg ? mkSExt(lo, w2) : mkZExt(lo, w2);
            out = Val::mkAgg(2);
            out.at(0) = Val::sym(lo); out.at(1) = Val::sym(mkNot(mkEq(full, back)));
            return true; }
        // floating point
        case Intrinsic::fabs: return lanes1([&](const Val &x, unsigned w) { return binop(K::And, x, Val(maskw(w) >> 1), w); });
        case Intrinsic::copysign: return lanes2([&](const Val &x, const Val &y, unsigned w) {
            Val m(maskw(w) >> 1), s((u128) 1 << (w - 1));
            return binop(K::Or, binop(K::And, x, m, w), binop(K::And, y, s, w), w); });
        case Intrinsic::sqrt: return lanes1([&](const Val &x, unsigned w) { return Val::sym(mkFp1(K::FSqrt, toE(x, w), w)); });
        case Intrinsic::fma: return lanes3([&](const Val &x, const Val &y, const Val &z, unsigned w) { return Val::sym(mkFma(toE(x, w), toE(y, w), toE(z, w))); });
        case Intrinsic::fmuladd: return lanes3([&](const Val &x, const Val &y, const Val &z, unsigned w) { return fbin(K::FAdd, fbin(K::FMul, x, y, w), z, w); });
        case Intrinsic::ceil: return lanes1([&](const Val &x, unsigned w) { return roundFp(x, w, 1); });
        case Intrinsic::floor: return lanes1([&](const Val &x, unsigned w) { return roundFp(x, w, 2); });
        case Intrinsic::trunc: return lanes1([&](const Val &x, unsigned w) { return roundFp(x, w, 3); });
        case Intrinsic::round: return lanes1([&](const Val &x, unsigned w) { return roundFp(x, w, 4); });
        case Intrinsic::nearbyint: case Intrinsic::rint: case Intrinsic::roundeven: return lanes1([&](const Val &x, unsigned w) { return roundFp(x, w, 0); });
        case Intrinsic::minnum: return lanes2([&](const Val &x, const Val &y, unsigned w) { return fmin_(ex, x, y, w, false); });
        case Intrinsic::maxnum: return lanes2([&](const Val &x, const Val &y, unsigned w) { return fmin_(ex, x, y, w, true); });
        case Intrinsic::minimum: return lanes2([&](const Val &x, const Val &y, unsigned w) { return fminimum(x, y, w, false); });
        case Intrinsic::maximum: return lanes2([&](const Val &x, const Val &y, unsigned w) { return fminimum(x, y, w, true); });
        case Intrinsic::exp2: return lanes1([&](const Val &x, unsigned w) { return fpFun("exp2", ::exp2, ::exp2f, x, w); });
        case Intrinsic::log2: return lanes1([&](const Val &x, unsigned w) { return fpFun("log2", ::log2, ::log2f, x, w); });
        case Intrinsic::sin: return lanes1([&](const Val &x, unsigned w) { return fpFun("sin", ::sin, ::sinf, x, w); });
        case Intrinsic::cos: return lanes1([&](const Val &x, unsigned w) { return fpFun("cos", ::cos, ::cosf, x, w); });
        case Intrinsic::is_fpclass: {
            unsigned test = (unsigned) a[1].c;
            return lanes1([&](const Val &x, unsigned w) {
                E v = toE(x, w);
                unsigned mb = w == 16 ? 10 : w == 32 ? 23 : 52, eb = w - 1 - mb;
                E ex_ = mkExtract(v, mb, eb), man = mkExtract(v, 0, mb), sg = mkExtract(v, w - 1, 1);
                E e1 = mkEq(ex_, mkConst(maskw(eb), eb)), e0 = mkEq(ex_, mkConst(0, eb)), m0 = mkEq(man, mkConst(0, mb));
                E r = mkFalse();
                E nan = mkAnd(e1, mkNot(m0)), q = mkEq(mkExtract(v, mb - 1, 1), mkConst(1, 1));
                if (test & 1) r = mkOr(r, mkAnd(nan, mkNot(q)));
                if (test & 2) r = mkOr(r, mkAnd(nan, q));
                E inf = mkAnd(e1, m0), zero = mkAnd(e0, m0), sub = mkAnd(e0, mkNot(m0)), nrm = mkAnd(mkNot(e1), mkNot(e0)), neg = mkEq(sg, mkConst(1, 1)), pos = mkNot(neg);
                if (test & 4) r = mkOr(r, mkAnd(inf, neg));
                if (test & 8) r = mkOr(r, mkAnd(nrm, neg));
                if (test & 16) r = mkOr(r, mkAnd(sub, neg));
                if (test & 32) r = mkOr(r, mkAnd(zero, neg));
                if (test & 64) r = mkOr(r, mkAnd(zero, pos));
                if (test & 128) r = mkOr(r, mkAnd(sub, pos));
                if (test & 256) r = mkOr(r, mkAnd(nrm, pos));
                if (test & 512) r = mkOr(r, mkAnd(inf, pos));
                return Val::sym(r);
            }); }
        case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat:
            throw Terminate{ "unsupported", "saturating fp conversion" };
        case Intrinsic::convert_to_fp16: { unsigned sw = bits(cb->getArgOperand(0)->getType()); out = Val::sym(mkFp1(K::FCvt, toE(a[0], sw), 16)); return true; }
        case Intrinsic::convert_from_fp16: { out = Val::sym(mkFp1(K::FCvt, toE(a[0], 16), w)); return true; }
        // reductions
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or:
        case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax:
        case Intrinsic::vector_reduce_umin: {
            Val r = a[0].at(0);
            for (size_t i = 1; i < a[0].size(); ++i) {
                const Val &x = a[0].at(i);
                switch (ki.intrin) {
                    case Intrinsic::vector_reduce_add: r = binop(K::Add, r, x, w); break;
                    case Intrinsic::vector_reduce_mul: r = binop(K::Mul, r, x, w); break;
                    case Intrinsic::vector_reduce_and: r = binop(K::And, r, x, w); break;
                    case Intrinsic::vector_reduce_or: r = binop(K::Or, r, x, w); break;
                    case Intrinsic::vector_reduce_xor: r = binop(K::Xor, r, x, w); break;
                    case Intrinsic::vector_reduce_smax: r = ite(lt(K::Slt, r, x, w), x, r, w); break;
                    case Intrinsic::vector_reduce_smin: r = ite(lt(K::Slt, x, r, w), x, r, w); break;
                    case Intrinsic::vector_reduce_umax: r = ite(lt(K::Ult, r, x, w), x, r, w); break;
                    default: r = ite(lt(K::Ult, x, r, w), x, r, w); break;
                }
            }
            out = r; return true; }
        case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
            K k = ki.intrin == Intrinsic::vector_reduce_fadd ? K::FAdd : K::FMul;
            // With 'reassoc' the order is unspecified; the sequential order is one valid choice
            Val r = a[0];
            for (size_t i = 0; i < a[1].size(); ++i) r = fbin(k, r, a[1].at(i), w);
            out = r; return true; }
        case Intrinsic::vector_reduce_fmax: case Intrinsic::vector_reduce_fmin: {
            Val r = a[0].at(0);
            for (size_t i = 1; i < a[0].size(); ++i) r = fmin_(ex, r, a[0].at(i), w, ki.intrin == Intrinsic::vector_reduce_fmax);
            out = r; return true; }
        // masked memory
        case Intrinsic::masked_load: case Intrinsic::masked_gather: {
            bool g = ki.intrin == Intrinsic::masked_gather;
            Type *et = cast<FixedVectorType>(ty)->getElementType();
            unsigned es = storeSize(et);
            const Val mask = a[2], pass = a[3], base = a[0];
            out = mapLanes(ty, [&](unsigned i) -> Val {
                E m = subst(st, toE(mask.at(i), 1));
                if (m->isConst() && !m->c) return pass.at(i);
                Val p = g ? base.at(i) : binop(K::Add, base, Val((uint64_t) i * es), 64);
                p = subst(st, p, 64);
                if (m->isConst()) return loadType(st, p, et);
                if (!p.e) {
                    Obj *o = find(st, (uint64_t) p.c);
                    if (!o || o->freed || (uint64_t) p.c + es > o->addr + o->size) {
                        if (mayBe(st, m) == 0) return pass.at(i);
                        report(st, "memory", "out-of-bounds masked read", m);
                        throw Terminate{ "error", "oob masked read" };
                    }
                    Val v = loadType(st, p, et);
                    return iteV(m, v, pass.at(i), et);
                }
                int f = mayBe(st, m);
                if (f == 0) return pass.at(i);
                Val v = loadType(st, p, et, m);
                return iteV(m, v, pass.at(i), et);
            });
            return true; }
        case Intrinsic::masked_store: case Intrinsic::masked_scatter: {
            bool g = ki.intrin == Intrinsic::masked_scatter;
            auto *vt = cast<FixedVectorType>(cb->getArgOperand(0)->getType());
            Type *et = vt->getElementType();
            unsigned es = storeSize(et);
            const Val v = a[0], base = a[1], mask = a[3];
            for (unsigned i = 0; i < vt->getNumElements(); ++i) {
                E m = subst(st, toE(mask.at(i), 1));
                if (m->isConst() && !m->c) continue;
                Val p = g ? base.at(i) : binop(K::Add, base, Val((uint64_t) i * es), 64);
                p = subst(st, p, 64);
                if (m->isConst()) storeType(st, p, et, v.at(i));
                else { if (p.e && mayBe(st, m) == 0) continue; storeType(st, p, et, v.at(i), m); }
            }
            return true; }
        case Intrinsic::masked_compressstore: case Intrinsic::masked_expandload:
            return false;
        // x86
        case Intrinsic::x86_sse42_crc32_32_8: case Intrinsic::x86_sse42_crc32_64_64: return false;
        case Intrinsic::x86_vcvtps2ph_128: {
            out = Val::mkAgg(8);
            if (((unsigned) a[1].c & 3) == 3) return false;
            for (unsigned i = 0; i < 4; ++i) out.at(i) = Val::sym(mkFp1(K::FCvt, toE(a[0].at(i), 32), 16));
            return true; }
        case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_lfence: return true;
        case Intrinsic::x86_sse2_pause:
            st.th().spinning = st.threads.size() > 1; return true;
        case Intrinsic::readcyclecounter: out = Val((u128) 1000); return true;
        default: break;
    }
    StringRef n = cb->getCalledFunction()->getName();
    if (n.startswith("llvm.x86.vcvtph2ps") ) {
        out = mapLanes(ty, [&](unsigned i) { return Val::sym(mkFp1(K::FCvt, toE(a[0].at(i), 16), 32)); });
        return true;
    }
    (void) w;
    return false;
}

// Parse kernel IR (text) into the engine. Returns 0 on failure.
struct JitModule { std::unique_ptr<Module> m; };
static std::unordered_map<std::string, int> g_jitCache;
static std::vector<Module *> g_jitMods;
static std::string g_jitText;

static int jitParse(Exec &ex, State &st, const std::string &text, std::string &errs) {
    auto it = g_jitCache.find(text);
    if (it != g_jitCache.end()) return it->second;
    SMDiagnostic d;
    auto mb = MemoryBuffer::getMemBufferCopy(text, "kernel");
    auto m = parseIR(mb->getMemBufferRef(), d, ex.ctx);
    if (!m) { raw_string_ostream os(errs); d.print("kernel", os); return 0; }
    std::string verr; raw_string_ostream vs(verr);
    if (verifyModule(*m, &vs)) { errs = "verification failed: " + verr; return 0; }
    // give every function a unique entry in the engine
    std::map<std::string, uint64_t> fixed;
    bool hasCallables = false;
    for (GlobalVariable &g : m->globals())
        if (g.getName() == "callables") { fixed["callables"] = 0; hasCallables = true; }
    ex.addModule(*m, st, true, fixed);
    g_jitMods.push_back(m.get());
    ex.jitMods.push_back(std::move(m));
    int id = (int) g_jitMods.size();
    if (!hasCallables) {
        bool stateful = false;
        for (GlobalVariable &g : g_jitMods.back()->globals()) { (void) g; stateful = true; }
        if (!stateful) g_jitCache[text] = id;
    }
    return id;
}
bool Exec::jitCompile(State &, const std::string &, std::string &) { return false; }

static void scanJit(Exec &ex, State &st, uint64_t a, uint64_t n) {
    Obj *o = ex.find(st, a);
    if (!o) return;
    for (uint64_t off = a - o->addr; off + 16 <= o->size && off + 16 <= a - o->addr + n; off += 8) {
        uint64_t m; memcpy(&m, o->c.data() + off, 8);
        if (m != JIT_MAGIC) continue;
        uint64_t id; memcpy(&id, o->c.data() + off + 8, 8);
        if (id >= g_jitFns.size()) continue;
        JitFn &jf = g_jitFns[id];
        st.jitFuncs[o->addr + off] = ex.getFunc(jf.f);
        if (jf.callables && jf.delta) ex.gaddr[jf.callables] = o->addr + off + jf.delta;
    }
}

static int g_errnoInit = 0;
static uint64_t errnoAddr(Exec &ex, State &st) {
    auto key = std::make_pair((const GlobalValue *) nullptr, st.cur);
    auto it = st.tls.find(key);
    if (it == st.tls.end()) it = st.tls.emplace(key, ex.allocHeap(st, 4, 16, OK::Mmap, "errno", 0, 0)).first;
    return it->second;
}
static void setErrno(Exec &ex, State &st, int v) { ex.writeMem(st, errnoAddr(ex, st), 4, Val((uint32_t) v)); }

static uint64_t doMalloc(Exec &ex, State &st, uint64_t n, uint64_t align, uint8_t how, int fill = 0xCD) {
    if (n > (1ull << 28)) return 0;
    st.mallocCount++;
    if (how == 0 && st.failAlloc >= 0 && st.failAlloc-- == 0) { st.faults++; return 0; }
    return ex.allocHeap(st, n, align, OK::Heap, how == 0 ? "malloc" : "new", how, fill);
}

static Val symVar(Exec &ex, State &st, CallInfo &ci, unsigned w) {
    (void) ci;
    std::string name = cstr(ex, st, (uint64_t) ci.args[0].c);
    uint32_t o = st.occ[name]++;
    E e = mkVar(name, o, w);
    st.inputs.push_back({ name, o, w, e });
    return Val::sym(e);
}

void Exec::registerBuiltins() {
    // ---------------------------------------------------------- harness API
    B("sym_u8") { ci.ret = symVar(ex, st, ci, 8); };
    B("sym_u16") { ci.ret = symVar(ex, st, ci, 16); };
    B("sym_u32") { ci.ret = symVar(ex, st, ci, 32); };
    B("sym_u64") { ci.ret = symVar(ex, st, ci, 64); };
    B("sym_bytes") {
        uint64_t p = U64(0), n = U64(1);
        std::string name = cstr(ex, st, (uint64_t) ci.args[2].c);
        for (uint64_t i = 0; i < n; ++i) {
            uint32_t o = st.occ[name]++;
            E e = mkVar(name, o, 8);
            st.inputs.push_back({ name, o, 8, e });
            ex.writeMem(st, p + i, 1, Val::sym(e));
        }
    };
    B("sym_assume") {
        E c = ex.subst(st, fromBool(ci.args[0], 32));
        if (c->isConst()) { if (!c->c) throw Terminate{ "assume", "" }; return; }
        int m = ex.mayBe(st, c);
        if (m == 0) throw Terminate{ "assume", "" };
        ex.assume(st, c);
    };
    B("sym_assert") {
        std::string msg = cstr(ex, st, (uint64_t) ci.args[1].c);
        E c = ex.subst(st, fromBool(ci.args[0], 32));
        AssertStat &s = ex.asserts[msg];
        s.checked++;
        if (c->isConst()) {
            if (c->c) { s.concrete++; return; }
            s.violated++;
            ex.report(st, "assert", msg);
            throw Terminate{ "error", "assertion failed: " + msg };
        }
        std::vector<E> cs = st.pc; cs.push_back(mkNot(c));
        Assignment m;
        Res r = solverCheck(cs, &m, true);
        if (r == Res::Unsat) { s.proven++; st.known.emplace(c, true); return; }
        if (r == Res::Unknown) {
            s.unknown++; ex.incomplete = true; ex.incompleteWhy = "solver gave up on: " + msg + " at " + ex.where(st);
            if (ex.cfg.verbose) fprintf(stderr, "UNKNOWN %s: %s\n", msg.c_str(), exprStr(c, 8).c_str());
            ex.assume(st, c); return;
        }
        s.violated++;
        if (ex.cfg.verbose) fprintf(stderr, "VIOLATED %s: %s\n", msg.c_str(), exprStr(c, 8).c_str());
        ex.report(st, "assert", msg, mkNot(c));
        if (ex.mayBe(st, c) == 0) throw Terminate{ "error", "assertion failed: " + msg };
        ex.assume(st, c);
    };
    B("sym_reach") { ex.reaches[cstr(ex, st, (uint64_t) ci.args[0].c)]++; };
    B("sym_param") { uint32_t i = U32(0); ci.ret = Val((uint64_t) (i < ex.cfg.params.size() ? ex.cfg.params[i] : 0)); };
    B("sym_choose") {
        std::string name = cstr(ex, st, (uint64_t) ci.args[0].c);
        uint32_t n = U32(1);
        uint32_t o = st.occ[name];
        E e = mkVar(name, o, 32);
        E c = mk2(K::Ult, e, mkConst(n, 32));
        if (!ex.subst(st, c)->isConst()) ex.assume(st, c);
        uint64_t v = ex.u64(st, Val::sym(e), 32, "choice");
        st.occ[name]++;
        st.inputs.push_back({ name, o, 32, e });
        ci.ret = Val(v);
    };
    B("sym_concretize") { ci.ret = Val(U64(0)); };
    B("sym_is_symbolic") { ci.ret = Val((u128) (ci.args[0].e ? 1 : 0)); };
    B("sym_observe") { st.observes.push_back({ cstr(ex, st, (uint64_t) ci.args[0].c), ci.args[1] }); };
    B("sym_engine") { ci.ret = Val(1); };
    B("sym_malloc_reuse") { st.reuse = U32(0); };
    B("sym_fail_alloc") { st.failAlloc = (int64_t) U64(0); };
    B("sym_heap_live") { ci.ret = Val(st.liveHeap); };
    B("sym_allow_abort") { st.allowAbort = U32(0); };
    B("sym_faults") { ci.ret = Val(st.faults); };
    B("sym_yield") { st.th().spinning = st.threads.size() > 1 && U32(0); };
    B("sym_setenv") { st.env[cstr(ex, st, U64(0))] = cstr(ex, st, U64(1)); };
    B("sym_debug") {
        std::string s = cstr(ex, st, U64(0));
        fprintf(stderr, "[debug] %s: %s\n", s.c_str(), ci.args[1].e ? exprStr(ci.args[1].e, 10).c_str() : std::to_string((unsigned long long) ci.args[1].c).c_str());
    };
    B("sym_uf1") { // name, width, arg
        ci.ret = Val::sym(mkUF(cstr(ex, st, U64(0)), 64, toE(ci.args[1], 64)));
    };
    B("sym_valid") { // is [p, p+n) readable memory?
        uint64_t p = U64(0), n = U64(1);
        Obj *o = ex.find(st, p);
        ci.ret = Val((u128) (o && !o->freed && p + n <= o->addr + o->size));
    };
    B("sym_thread_create") {
        uint64_t fn = U64(0); Val arg = ci.args[1];
        auto it = ex.faddr.find(fn);
        if (it == ex.faddr.end()) throw Terminate{ "error", "bad thread function" };
        unsigned id = (unsigned) st.threads.size();
        st.threads.emplace_back();
        st.threads[id].sp = 0x7ff000000000ull + (uint64_t) id * 0x10000000ull;
        unsigned cur = st.cur;
        st.cur = id;
        std::vector<Val> a; a.push_back(arg);
        ex.pushFrame(st, it->second, std::move(a), nullptr);
        st.cur = cur;
        ci.ret = Val(id);
    };
    B("sym_thread_join") {
        uint32_t id = U32(0);
        if (!st.threads.at(id).done) { st.th().joinOn = (int) id; }
    };

    // ------------------------------------------------------------------ JIT
    // uint64_t sym_jit_parse(const char *text, size_t n, char *err, size_t errn)
    B("sym_jit_parse") {
        std::string text = bytesOf(ex, st, U64(0), U64(1)), e;
        int id = jitParse(ex, st, text, e);
        if (!id && ex.cfg.verbose) fprintf(stderr, "%s\n%s\n", text.c_str(), e.c_str());
        if (getenv("ENGINE_DUMP")) fprintf(stderr, "%s\n", text.c_str());
        if (!id) outN(ex, st, U64(2), U64(3), e);
        ci.ret = Val((uint64_t) id);
    };
    // uint64_t sym_jit_func(uint64_t mod, const char *name): 0 missing, 1 data, else function id + 2
    B("sym_jit_sym") {
        uint64_t id = U64(0); std::string name = cstr(ex, st, U64(1));
        GlobalValue *g = g_jitMods.at(id - 1)->getNamedValue(name);
        if (!g || g->isDeclaration()) { ci.ret = Val((u128) 0); return; }
        if (isa<GlobalVariable>(g)) { ci.ret = Val(1); return; }
        GlobalVariable *cv = g_jitMods[id - 1]->getGlobalVariable("callables", true);
        g_jitFns.push_back({ cast<Function>(g), cv, 0 });
        ci.ret = Val((uint64_t) g_jitFns.size() + 1);
    };
    B("sym_jit_delta") { g_jitFns.at(U64(0) - 2).delta = (int64_t) U64(1); };
    B("sym_jit_features") {
        std::string s = ex.cfg.llvmFeatures;
        uint64_t p = doMalloc(ex, st, s.size() + 1, 16, 0); writeBytes(ex, st, p, s.c_str(), s.size() + 1); ci.ret = Val(p);
    };

    // ----------------------------------------------------------------- heap
    B("malloc") { ci.ret = Val(doMalloc(ex, st, U64(0), 16, 0)); };
    B("calloc") { uint64_t a = U64(0), b = U64(1); ci.ret = Val(doMalloc(ex, st, a * b, 16, 0, 0)); };
    B("free") { ex.freeHeap(st, U64(0), 0); };
    B("realloc") {
        uint64_t p = U64(0), n = U64(1);
        uint64_t q = doMalloc(ex, st, n, 16, 0);
        if (q && p) {
            Obj *o = ex.find(st, p);
            if (!o || o->addr != p || o->freed) err(ex, st, "memory", "realloc of an invalid pointer");
            copyMem(ex, st, q, p, std::min(n, o->size), "realloc");
            ex.freeHeap(st, p, 0);
        }
        ci.ret = Val(q);
    };
    B("posix_memalign") {
        uint64_t p = U64(0), al = U64(1), n = U64(2);
        uint64_t q = doMalloc(ex, st, n, al, 0);
        if (!q) { ci.ret = Val(12); return; }
        ex.writeMem(st, p, 8, Val(q)); ci.ret = Val((u128) 0);
    };
    B("aligned_alloc") { ci.ret = Val(doMalloc(ex, st, U64(1), U64(0), 0)); };
    auto opnew = [](Exec &ex, State &st, CallInfo &ci) {
        uint64_t q = doMalloc(ex, st, U64(0), 16, 1);
        if (!q) { throwStd(ex, st, ci, "_ZTISt9bad_alloc", "std::bad_alloc"); return; }
        ci.ret = Val(q);
    };
    builtins["_Znwm"] = opnew; builtins["_Znam"] = opnew;
    auto opnewal = [](Exec &ex, State &st, CallInfo &ci) { ci.ret = Val(doMalloc(ex, st, U64(0), U64(1), 1)); };
    builtins["_ZnwmSt11align_val_t"] = opnewal; builtins["_ZnamSt11align_val_t"] = opnewal;
    auto opnewnt = [](Exec &ex, State &st, CallInfo &ci) { ci.ret = Val(doMalloc(ex, st, U64(0), 16, 1)); };
    builtins["_ZnwmRKSt9nothrow_t"] = opnewnt; builtins["_ZnamRKSt9nothrow_t"] = opnewnt;
    auto opdel = [](Exec &ex, State &st, CallInfo &ci) { ex.freeHeap(st, U64(0), 1); };
    for (const char *n : { "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t" }) builtins[n] = opdel;
    B("malloc_usable_size") { Obj *o = ex.find(st, U64(0)); ci.ret = Val(o ? o->size : 0); };
    B("mmap") {
        uint64_t n = U64(1);
        st.mallocCount++;
        if (st.failAlloc >= 0 && st.failAlloc-- == 0) { st.faults++; setErrno(ex, st, 12); ci.ret = Val(~(uint64_t) 0); return; }
        if (n == 0 || n > (1ull << 28)) { setErrno(ex, st, n ? 12 : 22); ci.ret = Val(~(uint64_t) 0); return; }
        ci.ret = Val(ex.allocHeap(st, n, 4096, OK::Heap, "mmap", 3, 0));
    };
    B("munmap") {
        uint64_t p = U64(0), n = U64(1);
        Obj *o = ex.find(st, p);
        if (!o || o->addr != p || o->freed) err(ex, st, "memory", "munmap of an invalid region");
        if (o->size != n) err(ex, st, "memory", "munmap with the wrong size");
        ex.freeHeap(st, p, 3); ci.ret = Val((u128) 0);
    };
    B("mprotect") { uint64_t p = U64(0), n = U64(1); if (U32(2) & 4) scanJit(ex, st, p, n); ci.ret = Val((u128) 0); };
    B("madvise") { ci.ret = Val((u128) 0); };

    // --------------------------------------------------------------- string
    auto mcpy = [](Exec &ex, State &st, CallInfo &ci) { Val d0 = ci.args[0]; uint64_t n = U64(2); if (n) copyMem(ex, st, U64(0), U64(1), n, "memcpy"); ci.ret = d0; };
    builtins["memcpy"] = mcpy; builtins["memmove"] = mcpy; builtins["__memcpy_chk"] = mcpy;
    B("memset") { Val d0 = ci.args[0]; uint64_t n = U64(2); if (n) setMem(ex, st, U64(0), ci.args[1], n); ci.ret = d0; };
    auto mcmp = [](Exec &ex, State &st, CallInfo &ci) {
        uint64_t n = U64(2), a = 0, b = 0;
        if (!n) { ci.ret = Val((u128) 0); return; }
        a = U64(0); b = U64(1);
        ex.checkAccess(st, a, n, "read"); ex.checkAccess(st, b, n, "read");
        E r = nullptr; 
        std::vector<std::pair<E, E>> ps;
        for (uint64_t i = 0; i < n; ++i) {
            Val x = ex.readMem(st, a + i, 1), y = ex.readMem(st, b + i, 1);
            if (!x.e && !y.e) {
                if (x.c == y.c) continue;
                r = mkConst(x.c < y.c ? 0xffffffff : 1, 32);
                break;
            }
            if (x.e == y.e) continue;
            ps.push_back({ toE(x, 8), toE(y, 8) });
        }
        if (!r) r = mkConst(0, 32);
        for (size_t i = ps.size(); i-- > 0;)
            r = mkIte(mkEq(ps[i].first, ps[i].second), r, mkIte(mk2(K::Ult, ps[i].first, ps[i].second), mkConst(0xffffffff, 32), mkConst(1, 32)));
        ci.ret = Val::sym(r);
    };
    builtins["memcmp"] = mcmp;
    B("bcmp") { // equality only: avoid the ordering terms
        uint64_t n = U64(2);
        if (!n) { ci.ret = Val((u128) 0); return; }
        uint64_t a = U64(0), b = U64(1);
        ex.checkAccess(st, a, n, "read"); ex.checkAccess(st, b, n, "read");
        E eq = mkTrue();
        for (uint64_t i = 0; i < n; ++i) {
            Val x = ex.readMem(st, a + i, 1), y = ex.readMem(st, b + i, 1);
            if (!x.e && !y.e) { if (x.c != y.c) { ci.ret = Val(1); return; } continue; }
            eq = mkAnd(eq, mkEq(toE(x, 8), toE(y, 8)));
        }
        ci.ret = Val::sym(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    };
    B("strlen") {
        uint64_t p = U64(0), n = 0;
        for (;;) {
            Val b = ex.readMem(st, p + n, 1);
            if (b.e) { if (ex.branch(st, mkEq(b.e, mkConst(0, 8)))) break; }
            else if (!b.c) break;
            n++;
        }
        ci.ret = Val(n);
    };
    B("strcmp") { std::string a = cstr(ex, st, U64(0)), b = cstr(ex, st, U64(1)); int r = strcmp(a.c_str(), b.c_str()); ci.ret = Val((uint32_t) (r < 0 ? -1 : r > 0)); };
    B("strncmp") { std::string a = cstr(ex, st, U64(0)), b = cstr(ex, st, U64(1)); int r = strncmp(a.c_str(), b.c_str(), U64(2)); ci.ret = Val((uint32_t) (r < 0 ? -1 : r > 0)); };
    B("strcasecmp") { std::string a = cstr(ex, st, U64(0)), b = cstr(ex, st, U64(1)); int r = strcasecmp(a.c_str(), b.c_str()); ci.ret = Val((uint32_t) (r < 0 ? -1 : r > 0)); };
    auto dup = [](Exec &ex, State &st, CallInfo &ci) {
        uint64_t p = U64(0);
        uint64_t n = 0;
        while (true) { Val b = ex.readMem(st, p + n, 1); if (!b.e && !b.c) break; if (b.e) ex.u64(st, b, 8, "string byte"); n++; }
        uint64_t q = doMalloc(ex, st, n + 1, 16, 0);
        if (q) copyMem(ex, st, q, p, n + 1, "strdup");
        ci.ret = Val(q);
    };
    builtins["strdup"] = dup;
    auto isByte = [](Exec &ex, State &st, const Val &b, uint8_t c) { return b.e ? ex.branch(st, mkEq(b.e, mkConst(c, 8))) : (uint8_t) b.c == c; };
    builtins["strchr"] = ([isByte](Exec &ex, State &st, CallInfo &ci) {
        uint64_t p = U64(0); uint8_t c = (uint8_t) U32(1);
        for (;; ++p) {
            Val b = ex.readMem(st, p, 1);
            if (isByte(ex, st, b, c)) { ci.ret = Val(p); return; }
            if (isByte(ex, st, b, 0)) { ci.ret = Val((uint64_t) 0); return; }
        }
    });
    builtins["strrchr"] = ([isByte](Exec &ex, State &st, CallInfo &ci) {
        uint64_t p = U64(0), r = 0; uint8_t c = (uint8_t) U32(1);
        for (;; ++p) {
            Val b = ex.readMem(st, p, 1);
            if (isByte(ex, st, b, c)) r = p;
            if (isByte(ex, st, b, 0)) break;
        }
        ci.ret = Val(r);
    });
    B("strstr") {
        uint64_t p = U64(0); std::string s = cstr(ex, st, p), t = cstr(ex, st, U64(1));
        size_t r = s.find(t); ci.ret = Val(r != std::string::npos ? p + r : 0);
    };
    B("memchr") {
        uint64_t p = U64(0), n = U64(2); uint8_t c = (uint8_t) U32(1);
        ci.ret = Val((u128) 0);
        for (uint64_t i = 0; i < n; ++i) {
            Val b = ex.readMem(st, p + i, 1);
            if (ex.u64(st, b, 8, "memchr") == c) { ci.ret = Val(p + i); break; }
        }
    };
    B("strcpy") { Val d0 = ci.args[0]; uint64_t s = U64(1); std::string t = cstr(ex, st, s); copyMem(ex, st, U64(0), s, t.size() + 1, "strcpy"); ci.ret = d0; };
    B("strtoull") { uint64_t p = U64(0); std::string s = cstr(ex, st, p); char *e; errno = 0; unsigned long long v = strtoull(s.c_str(), &e, (int) U32(2)); if (errno) setErrno(ex, st, errno); uint64_t ep = U64(1); if (ep) ex.writeMem(st, ep, 8, Val(p + (e - s.c_str()))); ci.ret = Val((uint64_t) v); };
    builtins["__isoc23_strtoull"] = builtins["strtoull"]; builtins["strtoul"] = builtins["strtoull"]; builtins["__isoc23_strtoul"] = builtins["strtoull"];
    B("strtol") { uint64_t p = U64(0); std::string s = cstr(ex, st, p); char *e; long v = strtol(s.c_str(), &e, (int) U32(2)); uint64_t ep = U64(1); if (ep) ex.writeMem(st, ep, 8, Val(p + (e - s.c_str()))); ci.ret = Val((uint64_t) v); };
    builtins["__isoc23_strtol"] = builtins["strtol"];
    B("strerror") { std::string s = strerror((int) U32(0)); uint64_t p = ex.allocHeap(st, s.size() + 1, 16, OK::Mmap, "strerror"); writeBytes(ex, st, p, s.c_str(), s.size() + 1); ci.ret = Val(p); };
    // ---------------------------------------------------------------- stdio
    B("snprintf") { std::string f = cstr(ex, st, U64(2)); std::string s = format(ex, st, f, argList(ex, st, ci, 3)); ci.ret = outN(ex, st, U64(0), U64(1), s); };
    B("sprintf") { std::string f = cstr(ex, st, U64(1)); std::string s = format(ex, st, f, argList(ex, st, ci, 2)); ci.ret = outN(ex, st, U64(0), s.size() + 1, s); };
    B("vsnprintf") { std::string f = cstr(ex, st, U64(2)); std::string s = format(ex, st, f, vaList(ex, st, U64(3))); ci.ret = outN(ex, st, U64(0), U64(1), s); };
    B("fprintf") { std::string f = cstr(ex, st, U64(1)); std::string s = format(ex, st, f, argList(ex, st, ci, 2)); if (ex.cfg.verbose) fputs(s.c_str(), stderr); ci.ret = Val((uint32_t) s.size()); };
    B("printf") { std::string f = cstr(ex, st, U64(0)); std::string s = format(ex, st, f, argList(ex, st, ci, 1)); if (ex.cfg.verbose) fputs(s.c_str(), stderr); ci.ret = Val((uint32_t) s.size()); };
    B("vfprintf") { std::string f = cstr(ex, st, U64(1)); std::string s = format(ex, st, f, vaList(ex, st, U64(2))); if (ex.cfg.verbose) fputs(s.c_str(), stderr); ci.ret = Val((uint32_t) s.size()); };
    B("fputs") { if (ex.cfg.verbose) fputs(cstr(ex, st, U64(0)).c_str(), stderr); ci.ret = Val(1); };
    B("puts") { ci.ret = Val(1); };
    B("putchar") { ci.ret = ci.args[0]; };
    B("fputc") { ci.ret = ci.args[0]; };
    B("putc") { ci.ret = ci.args[0]; };
    B("fwrite") { ci.ret = ci.args[2]; };
    B("fflush") { ci.ret = Val((u128) 0); };
    B("getenv") {
        std::string n = cstr(ex, st, U64(0));
        auto it = st.env.find(n);
        if (it == st.env.end()) { ci.ret = Val((u128) 0); return; }
        uint64_t p = ex.allocHeap(st, it->second.size() + 1, 16, OK::Mmap, "getenv");
        writeBytes(ex, st, p, it->second.c_str(), it->second.size() + 1);
        ci.ret = Val(p);
    };
    B("getpid") { ci.ret = Val(4242); };
    B("sysconf") { ci.ret = Val(4096); };
    B("glob") { ci.ret = Val(3); };
    B("globfree") { };
    B("__errno_location") { ci.ret = Val(errnoAddr(ex, st)); };
    B("clock_gettime") { uint64_t p = U64(1); ex.writeMem(st, p, 8, Val(1000)); ex.writeMem(st, p + 8, 8, Val(0 + (u128) 0)); ci.ret = Val((u128) 0); };
    B("usleep") { ci.ret = Val((u128) 0); };
    // -------------------------------------------------------------- process
    auto ab = [](Exec &ex, State &st, CallInfo &ci) {
        if (st.allowAbort) throw Terminate{ "done", "abort" };
        err(ex, st, "abort", ci.target->name + "() called");
    };
    builtins["abort"] = ab; builtins["_ZSt9terminatev"] = ab; builtins["__cxa_pure_virtual"] = ab; builtins["_exit"] = ab;
    builtins["__assert_fail"] = ab; builtins["__clang_call_terminate"] = ab;
    B("exit") { if (st.allowAbort) throw Terminate{ "done", "exit" }; err(ex, st, "abort", "exit() called"); };
    B("__cxa_atexit") { ci.ret = Val((u128) 0); };
    B("atexit") { ci.ret = Val((u128) 0); };
    B("__cxa_thread_atexit") { ci.ret = Val((u128) 0); };
    B("__cxa_guard_acquire") { uint64_t p = U64(0); Val v = ex.readMem(st, p, 1); ci.ret = Val((u128) (v.c == 0)); };
    B("__cxa_guard_release") { ex.writeMem(st, U64(0), 1, Val(1)); };
    B("__cxa_guard_abort") { };
    // ----------------------------------------------------------- exceptions
    B("__cxa_allocate_exception") { ci.ret = Val(ex.allocHeap(st, U64(0), 16, OK::Mmap, "exception")); };
    B("__cxa_free_exception") { };
    B("__cxa_throw") {
        uint64_t e = U64(0);
        st.exc[e] = ExcInfo{ U64(1), U64(2), 0, 1 };
        ci.threw = true;
        ex.unwind(st, e, false);
    };
    B("__cxa_begin_catch") { uint64_t e = U64(0); st.th().caught.push_back(e); st.exc[e].handlers++; ci.ret = Val(e); };
    B("__cxa_end_catch") {
        auto &c = st.th().caught;
        if (c.empty()) throw Terminate{ "error", "end_catch without begin_catch" };
        c.pop_back();
    };
    B("__cxa_rethrow") {
        auto &c = st.th().caught;
        if (c.empty()) err(ex, st, "terminate", "rethrow without an active exception");
        uint64_t e = c.back();
        ci.threw = true;
        ex.unwind(st, e, false);
    };
    B("__cxa_get_exception_ptr") { ci.ret = ci.args[0]; };
    B("_ZSt17current_exceptionv") { // sret exception_ptr
        auto &c = st.th().caught;
        ex.writeMem(st, U64(0), 8, Val(c.empty() ? 0 : c.back()));
    };
    B("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { uint64_t e = (uint64_t) ex.readMem(st, U64(0), 8).c; ci.threw = true; ex.unwind(st, e, false); };
    B("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv") { };
    B("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv") { };
    B("_ZSt18uncaught_exceptionsv") { ci.ret = Val((u128) 0); };
    B("_Unwind_Resume") { ci.threw = true; ex.unwind(st, U64(0), true); };
    B("__exc_dtor") { };
    B("__exc_what") { ci.ret = ex.readMem(st, U64(0) + 8, 8); };
    auto excInit = [](Exec &ex, State &st, uint64_t self, uint64_t msg) {
        ex.writeMem(st, self + 8, 8, Val(msg));
        uint64_t tab = ex.allocHeap(st, 24, 16, OK::Mmap, "vtable for std::exception");
        ex.writeMem(st, tab, 8, Val(ex.builtinFunc("__exc_dtor")->addr));
        ex.writeMem(st, tab + 8, 8, Val(ex.builtinFunc("__exc_dtor")->addr));
        ex.writeMem(st, tab + 16, 8, Val(ex.builtinFunc("__exc_what")->addr));
        ex.writeMem(st, self, 8, Val(tab));
    };
    for (const char *c : { "13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument", "12length_error" }) {
        for (const char *k : { "C1", "C2" }) {
            builtins[std::string("_ZNSt") + c + k + "EPKc"] = [excInit](Exec &ex, State &st, CallInfo &ci) {
                std::string s = cstr(ex, st, U64(1));
                uint64_t m = ex.allocHeap(st, s.size() + 1, 16, OK::Mmap, "what"); writeBytes(ex, st, m, s.c_str(), s.size() + 1);
                excInit(ex, st, U64(0), m); };
            builtins[std::string("_ZNSt") + c + k + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = [excInit](Exec &ex, State &st, CallInfo &ci) {
                uint64_t sp = U64(1); uint64_t d = (uint64_t) ex.readMem(st, sp, 8).c, n = (uint64_t) ex.readMem(st, sp + 8, 8).c;
                std::string s = bytesOf(ex, st, d, n);
                uint64_t m = ex.allocHeap(st, s.size() + 1, 16, OK::Mmap, "what"); writeBytes(ex, st, m, s.c_str(), s.size() + 1);
                excInit(ex, st, U64(0), m); };
        }
        for (const char *k : { "D0", "D1", "D2" }) builtins[std::string("_ZNSt") + c + k + "Ev"] = [](Exec &, State &, CallInfo &) { };
    }
    for (const char *k : { "D0", "D1", "D2" }) builtins[std::string("_ZNSt9exception") + k + "Ev"] = [](Exec &, State &, CallInfo &) { };
    B("_ZSt17__throw_bad_allocv") { throwStd(ex, st, ci, "_ZTISt9bad_alloc", "std::bad_alloc"); };
    B("_ZSt28__throw_bad_array_new_lengthv") { throwStd(ex, st, ci, "_ZTISt20bad_array_new_length", "bad_array_new_length"); };
    B("_ZSt25__throw_bad_function_callv") { throwStd(ex, st, ci, "_ZTISt17bad_function_call", "bad_function_call"); };
    B("_ZSt20__throw_length_errorPKc") { throwStd(ex, st, ci, "_ZTISt12length_error", cstr(ex, st, U64(0))); };
    B("_ZSt19__throw_logic_errorPKc") { throwStd(ex, st, ci, "_ZTISt11logic_error", cstr(ex, st, U64(0))); };
    B("_ZSt20__throw_out_of_rangePKc") { throwStd(ex, st, ci, "_ZTISt12out_of_range", cstr(ex, st, U64(0))); };
    B("_ZSt24__throw_out_of_range_fmtPKcz") { throwStd(ex, st, ci, "_ZTISt12out_of_range", cstr(ex, st, U64(0))); };
    B("_ZSt20__throw_system_errori") { throwStd(ex, st, ci, "_ZTISt12system_error", "system_error"); };
    // ------------------------------------------------------------- libstdc++
    B("_ZSt11_Hash_bytesPKvmm") {
        uint64_t p = U64(0), n = U64(1), seed = U64(2);
        uint64_t h = seed ^ 0xcbf29ce484222325ull;
        std::string s = bytesOf(ex, st, p, n);
        for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
        ci.ret = Val(h);
    };
    // --------------------------------------------------------------- threads
    for (const char *n : { "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_setname_np" })
        builtins[n] = [](Exec &, State &, CallInfo &ci) { ci.ret = Val((u128) 0); };
    B("pthread_mutex_lock") {
        uint64_t p = U64(0);
        uint32_t v = (uint32_t) ex.readMem(st, p, 4).c;
        if (v) {
            if (st.threads.size() == 1) err(ex, st, "deadlock", "mutex locked twice by the same thread");
            st.th().spinning = true;   // wait until some other thread makes progress
            throw Reexecute{};
        }
        ex.writeMem(st, p, 4, Val(1)); ci.ret = Val((u128) 0);
    };
    B("pthread_mutex_trylock") { uint64_t p = U64(0); uint32_t v = (uint32_t) ex.readMem(st, p, 4).c; if (v) { ci.ret = Val(16); return; } ex.writeMem(st, p, 4, Val(1)); ci.ret = Val((u128) 0); };
    B("pthread_mutex_unlock") {
        uint64_t p = U64(0);
        if (!(uint32_t) ex.readMem(st, p, 4).c) err(ex, st, "lock", "unlock of an unlocked mutex");
        ex.writeMem(st, p, 4, Val((u128) 0));
        for (auto &t : st.threads) t.spinning = false;
        ci.ret = Val((u128) 0);
    };
    B("pthread_self") { ci.ret = Val((u128) (st.cur + 1)); };
    B("sched_yield") { st.th().spinning = st.threads.size() > 1; ci.ret = Val((u128) 0); };
    // ---------------------------------------------------------------- dlopen
    B("dlopen") {
        uint64_t p = U64(0);
        std::string n = p ? cstr(ex, st, p) : "";
        ci.ret = Val((u128) (n.find("LLVM") != std::string::npos ? 0xD1D10000 : 0));
    };
    B("dlsym") {
        uint64_t h = U64(0);
        std::string n = cstr(ex, st, U64(1));
        ci.ret = Val((u128) 0);
        if (h != 0xD1D10000) return;
        // the harness' stand-in for the LLVM C API: fake_<name>
        if (Function *f = ex.mod->getFunction("fake_" + n)) if (!f->isDeclaration()) ci.ret = Val(ex.getFunc(f)->addr);
    };
    B("dlclose") { ci.ret = Val((u128) 0); };
    B("dlerror") { ci.ret = Val((u128) 0); };
    // ------------------------------------------------------------------ math
    auto m1 = [this](const char *n, double (*fd)(double), float (*ff)(float)) {
        builtins[n] = [=](Exec &ex, State &st, CallInfo &ci) { ci.ret = fpFun(n, fd, ff, ci.args[0], 64); };
        std::string nf = std::string(n) + "f";
        std::string base = n;
        builtins[nf] = [=](Exec &ex, State &st, CallInfo &ci) { ci.ret = fpFun(base.c_str(), fd, ff, ci.args[0], 32); };
    };
    m1("sin", ::sin, ::sinf); m1("cos", ::cos, ::cosf); m1("tanh", ::tanh, ::tanhf); m1("exp2", ::exp2, ::exp2f);
    m1("log2", ::log2, ::log2f); m1("exp", ::exp, ::expf); m1("log", ::log, ::logf); m1("log10", ::log10, ::log10f); m1("tan", ::tan, ::tanf);
    B("pow") {
        if (!ci.args[0].e && !ci.args[1].e) { double d = ::pow(asD(ci.args[0].c, 64), asD(ci.args[1].c, 64)); uint64_t b; memcpy(&b, &d, 8); ci.ret = Val(b); return; }
        ci.ret = Val::sym(mkUF("pow", 64, toE(ci.args[0], 64), toE(ci.args[1], 64)));
    };
    B("powf") {
        if (!ci.args[0].e && !ci.args[1].e) { float d = ::powf((float) asD(ci.args[0].c, 32), (float) asD(ci.args[1].c, 32)); uint32_t b; memcpy(&b, &d, 4); ci.ret = Val(b); return; }
        ci.ret = Val::sym(mkUF("powf", 32, toE(ci.args[0], 32), toE(ci.args[1], 32)));
    };
    auto exact = [this](const char *n, std::function<Val(Exec &, std::vector<Val> &, unsigned)> f) {
        builtins[n] = [f](Exec &ex, State &, CallInfo &ci) { ci.ret = f(ex, ci.args, 64); };
        builtins[std::string(n) + "f"] = [f](Exec &ex, State &, CallInfo &ci) { ci.ret = f(ex, ci.args, 32); };
    };
    exact("sqrt", [](Exec &, std::vector<Val> &a, unsigned w) { return Val::sym(mkFp1(K::FSqrt, toE(a[0], w), w)); });
    exact("fma", [](Exec &, std::vector<Val> &a, unsigned w) { return Val::sym(mkFma(toE(a[0], w), toE(a[1], w), toE(a[2], w))); });
    exact("ceil", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 1); });
    exact("floor", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 2); });
    exact("trunc", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 3); });
    exact("round", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 4); });
    exact("rint", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 0); });
    exact("nearbyint", [](Exec &, std::vector<Val> &a, unsigned w) { return roundFp(a[0], w, 0); });
    exact("fmin", [](Exec &ex, std::vector<Val> &a, unsigned w) { return fmin_(ex, a[0], a[1], w, false); });
    exact("fmax", [](Exec &ex, std::vector<Val> &a, unsigned w) { return fmin_(ex, a[0], a[1], w, true); });
    exact("fabs", [](Exec &ex, std::vector<Val> &a, unsigned w) { return ex.binop(K::And, a[0], Val(maskw(w) >> 1), w); });
    exact("copysign", [](Exec &ex, std::vector<Val> &a, unsigned w) {
        return ex.binop(K::Or, ex.binop(K::And, a[0], Val(maskw(w) >> 1), w), ex.binop(K::And, a[1], Val((u128) 1 << (w - 1)), w), w); });
    B("fmod") { ci.ret = ex.fbin(K::FRem, ci.args[0], ci.args[1], 64); };
    B("fmodf") { ci.ret = ex.fbin(K::FRem, ci.args[0], ci.args[1], 32); };
    B("__extendhfsf2") { ci.ret = Val::sym(mkFp1(K::FCvt, toE(ci.args[0], 16), 32)); };
    B("__truncsfhf2") { ci.ret = Val::sym(mkFp1(K::FCvt, toE(ci.args[0], 32), 16)); };
    B("__truncdfhf2") { ci.ret = Val::sym(mkFp1(K::FCvt, toE(ci.args[0], 64), 16)); };
}
