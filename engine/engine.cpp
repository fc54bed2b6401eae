#include "engine.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <chrono>
#include <cstdio>
#include <algorithm>
using namespace llvm;

Exec *g_exec = nullptr;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static const uint64_t STACK_BASE = 0x7ff000000000ull, STACK_STRIDE = 0x10000000ull;

Exec::Exec() { g_exec = this; registerBuiltins(); }

// ------------------------------------------------------------------ types
unsigned Exec::bits(Type *t) const {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isHalfTy()) return 16;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
unsigned CallInfo::retw() const { return cb ? g_exec->bits(cb->getType()) : 0; }

static Val zeroOf(Exec &ex, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        Val v = Val::mkAgg(st->getNumElements());
        for (unsigned i = 0; i < st->getNumElements(); ++i) v.at(i) = zeroOf(ex, st->getElementType(i));
        return v;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        Val v = Val::mkAgg(at->getNumElements());
        for (uint64_t i = 0; i < at->getNumElements(); ++i) v.at(i) = zeroOf(ex, at->getElementType());
        return v;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        Val v = Val::mkAgg(vt->getNumElements());
        return v;
    }
    return Val();
}

Val Exec::evalConst(const Constant *c, State *st) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (auto *vt = dyn_cast<FixedVectorType>(t)) { // splat constants
            (void) vt;
        } else {
            const APInt &a = ci->getValue();
            if (a.getBitWidth() > 128) throw Terminate{ "unsupported", "integer constant wider than 128 bits" };
            u128 v = a.getRawData()[0];
            if (a.getNumWords() > 1) v |= (u128) a.getRawData()[1] << 64;
            return Val(v & maskw(a.getBitWidth()));
        }
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        u128 v = a.getRawData()[0];
        if (a.getNumWords() > 1) v |= (u128) a.getRawData()[1] << 64;
        return Val(v);
    }
    if (isa<ConstantPointerNull>(c)) return Val();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(*this, t);
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        Val v = Val::mkAgg(cd->getNumElements());
        bool fp = cd->getElementType()->isFloatingPointTy();
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            v.at(i) = fp ? Val(cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue()) : Val(cd->getElementAsInteger(i));
        return v;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        Val v = Val::mkAgg(ca->getNumOperands());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) v.at(i) = evalConst(ca->getOperand(i), st);
        return v;
    }
    if (auto *f = dyn_cast<Function>(c)) return Val(getFunc(f)->addr);
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee(), st);
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) throw Terminate{ "unsupported", "unknown global " + gv->getName().str() };
        return Val(it->second);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto *gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Terminate{ "unsupported", "constant gep" };
                Val b = evalConst(ce->getOperand(0), st);
                return Val((uint64_t) b.c + off.getZExtValue());
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                Val v = evalConst(ce->getOperand(0), st);
                if (v.agg || t->isVectorTy()) return bitcast(v, ce->getOperand(0)->getType(), t);
                v.c &= maskw(bits(t));
                return v;
            }
            case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0), st); v.c &= maskw(bits(t)); return v; }
            case Instruction::Add: { return binop(K::Add, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), bits(t)); }
            case Instruction::Sub: { return binop(K::Sub, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), bits(t)); }
            default: throw Terminate{ "unsupported", std::string("constant expression ") + ce->getOpcodeName() };
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw Terminate{ "unsupported", "constant " + os.str() };
}

// ----------------------------------------------------------------- loading
void Exec::load(const std::string &path) {
    SMDiagnostic err;
    mod = parseIRFile(path, err, ctx);
    if (!mod) { err.print("engine", errs()); exit(3); }
    DL = &mod->getDataLayout();
    initial = std::make_unique<State>();
    initial->threads.resize(1);
    initial->threads[0].sp = STACK_BASE;
    addModule(*mod, *initial, false);
}

static void storeConst(Exec &ex, Obj *o, uint64_t off, const Constant *c, State &st) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(o->c.data() + off, r.data(), r.size());
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = ex.DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            storeConst(ex, o, off + sl->getElementOffset(i), cs->getOperand(i), st);
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = ex.DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(ex, o, off + i * es, ca->getOperand(i), st);
        return;
    }
    if (auto *cv = dyn_cast<ConstantVector>(c)) {
        uint64_t es = ex.DL->getTypeStoreSize(cast<VectorType>(t)->getElementType());
        for (unsigned i = 0; i < cv->getNumOperands(); ++i) storeConst(ex, o, off + i * es, cv->getOperand(i), st);
        return;
    }
    Val v = ex.evalConst(c, &st);
    unsigned n = ex.storeSize(t);
    for (unsigned i = 0; i < n; ++i) o->c[off + i] = (uint8_t) (v.c >> (8 * i));
}

void Exec::addModule(Module &m, State &st, bool jit, const std::map<std::string, uint64_t> &fixed) {
    if (jit) m.setDataLayout(*DL);
    std::vector<std::pair<GlobalVariable *, ORef>> init;
    for (GlobalVariable &g : m.globals()) {
        uint64_t sz = std::max<uint64_t>(DL->getTypeAllocSize(g.getValueType()), 1);
        if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        uint64_t al = std::max<uint64_t>(g.getAlign().valueOrOne().value(), 16);
        std::string name = g.getName().str();
        auto fx = fixed.find(name);
        uint64_t a;
        if (fx != fixed.end()) {
            gaddr[&g] = fx->second; // storage lives elsewhere (JIT image)
            continue;
        }
        a = (nextGlobal + al - 1) / al * al;
        nextGlobal = a + sz + 16;
        gaddr[&g] = a;
        if (g.isThreadLocal() && !jit) { continue; }
        Obj *o = new Obj();
        o->addr = a; o->size = sz; o->kind = g.isConstant() ? OK::Const : OK::Global;
        o->c.assign(sz, 0);
        o->name = name;
        st.globals.push_back(ORef(o));
        init.push_back({ &g, st.globals.back() });
    }
    for (Function &f : m) { KFunc *k = getFunc(&f); k->jit = jit; }
    for (auto &p : init)
        if (p.first->hasInitializer()) storeConst(*this, p.second.p, 0, p.first->getInitializer(), st);
    // synthesize the std::exception family's vtables
    if (!jit) {
        for (auto &p : init) {
            GlobalVariable *g = p.first;
            std::string n = g->getName().str();
            if (!g->isDeclaration()) continue;
            if (n.rfind("_ZTVSt", 0) == 0) {
                uint64_t slots[5] = { 0, 0, builtinFunc("__exc_dtor")->addr, builtinFunc("__exc_dtor")->addr, builtinFunc("__exc_what")->addr };
                memcpy(p.second.p->c.data(), slots, sizeof(slots));
            }
            if (n == "stderr" || n == "stdout" || n == "stdin") {
                uint64_t h = n == "stderr" ? 2 : n == "stdout" ? 1 : 0;
                h += 0xF11E0000;
                memcpy(p.second.p->c.data(), &h, 8);
            }
        }
    }
}
uint64_t Exec::globalAddr(const std::string &name) {
    if (GlobalValue *g = mod->getNamedValue(name)) {
        if (auto *f = dyn_cast<Function>(g)) return getFunc(f)->addr;
        return gaddr[g];
    }
    return 0;
}

KFunc *Exec::builtinFunc(const std::string &name) {
    auto it = byName.find(name);
    if (it != byName.end()) return it->second;
    KFunc *k = new KFunc();
    k->name = name;
    k->addr = nextFunc; nextFunc += 16;
    auto b = builtins.find(name);
    if (b != builtins.end()) k->builtin = &b->second;
    faddr[k->addr] = k;
    byName[name] = k;
    return k;
}
KFunc *Exec::getFunc(const Function *F) {
    auto it = kfuncs.find(F);
    if (it != kfuncs.end()) return it->second;
    KFunc *k = new KFunc();
    k->F = const_cast<Function *>(F);
    k->name = F->getName().str();
    k->addr = nextFunc; nextFunc += 16;
    faddr[k->addr] = k;
    kfuncs[F] = k;
    auto b = builtins.find(k->name);
    if (b != builtins.end()) k->builtin = &b->second; // builtins take precedence
    if (!byName.count(k->name)) byName[k->name] = k;
    return k;
}

static int intrinsicId(const Function *f) { return f ? (int) f->getIntrinsicID() : 0; }

void Exec::prepare(KFunc *f) {
    if (f->prepared) return;
    f->prepared = true;
    DenseMap<const Value *, int> slots;
    std::unordered_map<const Constant *, int> cidx;
    unsigned n = 0;
    for (Argument &a : f->F->args()) slots[&a] = (int) n++;
    for (BasicBlock &bb : *f->F)
        for (Instruction &i : bb)
            if (!i.getType()->isVoidTy()) slots[&i] = (int) n++;
    f->nregs = n;
    auto opIndex = [&](const Value *v) -> int {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cidx.find(c);
            if (it != cidx.end()) return ~it->second;
            int k = (int) f->consts.size();
            f->consts.push_back(evalConst(c));
            cidx[c] = k;
            return ~k;
        }
        auto it = slots.find(v);
        if (it == slots.end()) return ~0x7fffffff; // metadata, inline asm, labels
        return it->second;
    };
    for (BasicBlock &bb : *f->F) {
        f->bb[&bb] = (unsigned) f->insts.size();
        for (Instruction &i : bb) {
            KInst k;
            k.I = &i;
            k.op = i.getOpcode();
            if (!i.getType()->isVoidTy()) { k.dst = slots[&i]; k.w = bits(i.getType()); }
            if (auto *cb = dyn_cast<CallBase>(&i)) {
                for (const Use &u : cb->args()) {
                    const Value *v = u.get();
                    k.ops.push_back(v->getType()->isMetadataTy() ? ~0x7fffffff : opIndex(v));
                }
                const Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto *cf = dyn_cast<Function>(cv)) {
                    k.callee = getFunc(cf);
                    k.intrin = intrinsicId(cf);
                } else if (!isa<InlineAsm>(cv)) {
                    k.ops.push_back(opIndex(cb->getCalledOperand())); // last operand = target
                }
            } else if (isa<PHINode>(i) || isa<LandingPadInst>(i)) {
                if (auto *phi = dyn_cast<PHINode>(&i))
                    for (unsigned j = 0; j < phi->getNumIncomingValues(); ++j) k.ops.push_back(opIndex(phi->getIncomingValue(j)));
            } else {
                for (const Use &u : i.operands()) {
                    if (isa<BasicBlock>(u.get())) k.ops.push_back(~0x7fffffff);
                    else k.ops.push_back(opIndex(u.get()));
                }
            }
            if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
                for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
                    const Value *idx = it.getOperand();
                    if (StructType *stt = it.getStructTypeOrNull()) {
                        const Constant *c = cast<Constant>(idx);
                        if (c->getType()->isVectorTy()) c = c->getSplatValue();
                        unsigned fi = (unsigned) cast<ConstantInt>(c)->getZExtValue();
                        k.gepOff += (int64_t) DL->getStructLayout(stt)->getElementOffset(fi);
                    } else {
                        int64_t es = (int64_t) DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                        if (auto *ci = dyn_cast<ConstantInt>(idx)) k.gepOff += ci->getSExtValue() * es;
                        else {
                            k.gepIdx.push_back({ opIndex(idx), es });
                            k.gepW.push_back(bits(idx->getType()->getScalarType()));
                        }
                    }
                }
            }
            f->insts.push_back(std::move(k));
        }
    }
}

// ------------------------------------------------------------------ memory
static ORef *findIn(std::vector<ORef> &v, uint64_t a) {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p->addr <= a) lo = m + 1; else hi = m; }
    if (lo == 0) return nullptr;
    ORef &r = v[lo - 1];
    if (a < r.p->addr + r.p->size || (r.p->size == 0 && a == r.p->addr)) return &r;
    return nullptr;
}
ORef *Exec::findRef(State &st, uint64_t a) {
    if (a >= STACK_BASE) {
        unsigned t = (unsigned) ((a - STACK_BASE) / STACK_STRIDE);
        if (t >= st.threads.size()) return nullptr;
        return findIn(st.threads[t].stack, a);
    }
    if (a >= 0x7f0000000000ull) return findIn(st.heap, a);
    return findIn(st.globals, a);
}
Obj *Exec::find(State &st, uint64_t a) { ORef *r = findRef(st, a); return r ? r->p : nullptr; }
Obj *Exec::writable(State &st, uint64_t a) {
    ORef *r = findRef(st, a);
    if (!r) return nullptr;
    if (r->p->rc > 1) { Obj *n = new Obj(*r->p); n->rc = 0; *r = ORef(n); }
    return r->p;
}
uint64_t Exec::allocHeap(State &st, uint64_t size, uint64_t align, OK kind, const char *name, uint8_t how, int fill) {
    if (st.reuse && kind == OK::Heap && align <= 16) {
        auto &fl = st.freeList[size];
        if (!fl.empty()) {
            uint64_t a = fl.back(); fl.pop_back();
            Obj *o = writable(st, a);
            o->freed = false; o->how = how; o->c.assign(size, (uint8_t) fill); o->s.clear(); o->name = name;
            st.liveHeap++;
            return a;
        }
    }
    uint64_t a = (st.heapNext + align - 1) / align * align;
    if (a == st.heapNext) a += align; // always leave a gap
    Obj *o = new Obj();
    o->addr = a; o->size = size; o->kind = kind; o->how = how;
    o->c.assign(size, (uint8_t) fill);
    o->name = name;
    st.heapNext = a + size + 16;
    st.heap.push_back(ORef(o));
    if (kind == OK::Heap) st.liveHeap++;
    return a;
}
uint64_t Exec::allocStack(State &st, uint64_t size, uint64_t align, const char *name) {
    Thread &t = st.th();
    if (align < 16) align = 16;
    uint64_t a = (t.sp + align - 1) / align * align;
    t.sp = a + size + 16;
    if (t.sp > STACK_BASE + (st.cur + 1) * STACK_STRIDE) throw Terminate{ "error", "stack overflow" };
    Obj *o = new Obj();
    o->addr = a; o->size = size; o->kind = OK::Stack;
    o->c.assign(size, 0xCD);
    o->name = name;
    t.stack.push_back(ORef(o));
    return a;
}
void Exec::freeHeap(State &st, uint64_t a, uint8_t how) {
    if (!a) return;
    Obj *o = find(st, a);
    if (!o || o->addr != a || o->kind != OK::Heap) { report(st, "memory", "invalid free"); throw Terminate{ "error", "invalid free" }; }
    if (o->freed) { report(st, "memory", "double free"); throw Terminate{ "error", "double free" }; }
    o = writable(st, a);
    o->freed = true;
    st.liveHeap--;
    if (st.reuse) st.freeList[o->size].push_back(a);
    else {
        o->c.clear(); o->c.shrink_to_fit(); o->s.clear();
        static thread_local unsigned cnt = 0;
        if ((++cnt & 0xffff) == 0 && st.heap.size() > 20000) {
            std::vector<ORef> nh; nh.reserve(st.heap.size());
            for (auto &r : st.heap) if (!r.p->freed) nh.push_back(r);
            st.heap.swap(nh);
        }
    }
}
void Exec::checkAccess(State &st, uint64_t a, uint64_t n, const char *what) {
    Obj *o = find(st, a);
    std::string m;
    if (a < 4096) m = std::string("null pointer ") + what;
    else if (!o) m = std::string("out-of-bounds ") + what;
    else if (o->freed) m = std::string("use-after-free ") + what;
    else if (a + n > o->addr + o->size) m = std::string("out-of-bounds ") + what;
    else return;
    if (cfg.verbose) {
        fprintf(stderr, "%s at 0x%llx size %llu\n%s\n", m.c_str(), (unsigned long long) a, (unsigned long long) n, backtrace(st).c_str());
        if (o) fprintf(stderr, "  object %s addr 0x%llx size %llu\n", o->name.c_str(), (unsigned long long) o->addr, (unsigned long long) o->size);
    }
    report(st, "memory", m);
    throw Terminate{ "error", m };
}
Val Exec::readMem(State &st, uint64_t a, unsigned n, bool check) {
    Obj *o = find(st, a);
    if (!o || o->freed || a + n > o->addr + o->size) {
        if (!check) return Val();
        checkAccess(st, a, n, "read");
    }
    uint64_t off = a - o->addr;
    if (!o->s.empty()) {
        bool any = false;
        for (unsigned i = 0; i < n; ++i) any |= o->s[off + i] != nullptr;
        if (any) {
            E r = nullptr;
            // assemble from the most significant byte downwards in a balanced,
            // merge-friendly order (extracts of one expression collapse)
            for (unsigned i = 0; i < n; ++i) {
                E b = o->s[off + i] ? o->s[off + i] : mkConst(o->c[off + i], 8);
                if (r && b->k == K::Extract && r->k == K::Extract && 0) { }
                r = r ? mkConcat(b, r) : b;
            }
            return Val::sym(r);
        }
    }
    u128 v = 0;
    if (n <= 16) memcpy(&v, o->c.data() + off, n);
    else throw Terminate{ "unsupported", "scalar read wider than 16 bytes" };
    return Val(v);
}
void Exec::writeMem(State &st, uint64_t a, unsigned n, const Val &v) {
    Obj *o = find(st, a);
    if (!o || o->freed || a + n > o->addr + o->size) checkAccess(st, a, n, "write");
    if (o->kind == OK::Const) { report(st, "memory", "write to read-only memory"); throw Terminate{ "error", "const write" }; }
    o = writable(st, a);
    uint64_t off = a - o->addr;
    if (!v.e) {
        memcpy(o->c.data() + off, &v.c, n);
        if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.resize(o->size, nullptr);
    for (unsigned i = 0; i < n; ++i) {
        E b = mkExtract(v.e, 8 * i, 8);
        if (b->isConst()) { o->c[off + i] = (uint8_t) b->c; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}
std::string Exec::readStr(State &st, uint64_t a) {
    std::string s;
    for (;;) {
        Val b = readMem(st, a++, 1);
        if (b.e) { s += '?'; if (s.size() > 4096) break; continue; }
        if (!b.c) break;
        s += (char) b.c;
    }
    return s;
}
static unsigned tz(E e) {
    switch (e->k) {
        case K::Const: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
        case K::Concat: { unsigned l = tz(e->op[1]); return l == e->op[1]->w ? l + tz(e->op[0]) : l; }
        case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(tz(e->op[0]), tz(e->op[1]));
        case K::And: return std::max(tz(e->op[0]), tz(e->op[1]));
        case K::Mul: return std::min<unsigned>(e->w, tz(e->op[0]) + tz(e->op[1]));
        case K::ZExt: case K::SExt: return tz(e->op[0]);
        case K::Ite: return std::min(tz(e->op[1]), tz(e->op[2]));
        case K::Extract: { unsigned t = tz(e->op[0]); return t > e->aux ? std::min<unsigned>(e->w, t - e->aux) : 0; }
        default: return 0;
    }
}
Obj *Exec::resolve(State &st, E addr, unsigned n, E guard, std::vector<uint64_t> &cands) {
    Assignment m;
    std::vector<E> cs = st.pc;
    if (guard) cs.push_back(guard);
    if (!guard && st.modelValid) m = st.model;
    else {
        Res r = solverCheck(cs, &m);
        if (r == Res::Unsat) return nullptr; // guard infeasible: no access
        if (r == Res::Unknown) throw Terminate{ "incomplete", "solver gave up while resolving a pointer" };
    }
    Evaluator ev(m);
    uint64_t a0 = (uint64_t) ev.eval(addr);
    if (!ev.ok) throw Terminate{ "incomplete", "pointer depends on an uninterpreted function" };
    Obj *o = find(st, a0);
    auto bad = [&](E cond) {
        std::string what = a0 < 4096 ? "null pointer access" : o && o->freed ? "use-after-free access" : "out-of-bounds access";
        report(st, "memory", what, guard ? mkAnd(guard, cond) : cond);
        throw Terminate{ "error", what };
    };
    if (!o || o->freed || a0 + n > o->addr + o->size) bad(mkEq(addr, mkConst(a0, 64)));
    // unsigned (addr - base) <= size - n
    E off = mk2(K::Sub, addr, mkConst(o->addr, 64));
    E inb = mk2(K::Ule, off, mkConst(o->size - n, 64));
    E oob = mkNot(inb);
    if (!inb->isConst() || !inb->c) {
        std::vector<E> q = cs; q.push_back(oob);
        Assignment m2;
        Res r = solverCheck(q, &m2, true);
        if (r == Res::Unknown) throw Terminate{ "incomplete", "solver gave up on a bounds check" };
        if (r == Res::Sat) {
            if (guard) {
                Evaluator ev2(m2);
                uint64_t a1 = (uint64_t) ev2.eval(addr);
                Obj *o1 = find(st, a1);
                a0 = a1;
                if (!o1 || o1->freed || a1 + n > o1->addr + o1->size) { o = o1; bad(oob); }
                throw Terminate{ "incomplete", "masked access spans several objects" };
            }
            fork(st, oob);
            assume(st, inb);
        }
    }
    unsigned z = std::min(tz(addr), 6u);
    uint64_t stride = 1ull << z, first = ((o->addr + stride - 1) / stride * stride);
    uint64_t cnt = o->addr + o->size >= first + n ? (o->addr + o->size - n - first) / stride + 1 : 0;
    if (cnt > 40) {
        // enumerate feasible values
        std::vector<E> q = cs;
        std::vector<uint64_t> vals;
        bool done = false;
        for (int i = 0; i < 48; ++i) {
            Assignment mm;
            Res r = solverCheck(q, &mm);
            if (r == Res::Unsat) { done = true; break; }
            if (r == Res::Unknown) break;
            Evaluator e2(mm);
            uint64_t a = (uint64_t) e2.eval(addr);
            vals.push_back(a);
            q.push_back(mkNot(mkEq(addr, mkConst(a, 64))));
        }
        if (done) { std::sort(vals.begin(), vals.end()); cands = vals; return o; }
    }
    if (cnt > 4096) throw Terminate{ "incomplete", "symbolic pointer into a large object" };
    for (uint64_t i = 0; i < cnt; ++i) cands.push_back(first + i * stride);
    return o;
}
Val Exec::loadSym(State &st, const Val &addr, unsigned n, E guard) {
    E a = subst(st, addr.e);
    if (a->isConst()) return readMem(st, (uint64_t) a->c, n);
    std::vector<uint64_t> cands;
    Obj *o = resolve(st, a, n, guard, cands);
    if (!o || cands.empty()) return Val();
    E r = nullptr;
    for (size_t i = cands.size(); i-- > 0;) {
        E v = toE(readMem(st, cands[i], n), n * 8);
        r = r ? mkIte(mkEq(a, mkConst(cands[i], 64)), v, r) : v;
    }
    return Val::sym(r);
}
void Exec::storeSym(State &st, const Val &addr, unsigned n, const Val &v, E guard) {
    E a = subst(st, addr.e);
    std::vector<uint64_t> cands;
    if (a->isConst()) cands.push_back((uint64_t) a->c);
    else if (!resolve(st, a, n, guard, cands)) return;
    E nv = toE(v, n * 8);
    for (uint64_t c : cands) {
        E cond = mkEq(a, mkConst(c, 64));
        if (guard) cond = mkAnd(guard, cond);
        E old = toE(readMem(st, c, n), n * 8);
        writeMem(st, c, n, Val::sym(mkIte(cond, nv, old)));
    }
}
Val Exec::loadType(State &st, const Val &addr, Type *t, E guard) {
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        Type *et = vt->getElementType();
        unsigned ew = bits(et), n = vt->getNumElements();
        if (ew % 8) { // packed bits
            unsigned nb = (ew * n + 7) / 8;
            Val raw = addr.e ? loadSym(st, addr, nb, guard) : readMem(st, (uint64_t) addr.c, nb);
            Val r = Val::mkAgg(n);
            for (unsigned i = 0; i < n; ++i) r.at(i) = raw.e ? Val::sym(mkExtract(raw.e, i * ew, ew)) : Val((raw.c >> (i * ew)) & maskw(ew));
            return r;
        }
        Val r = Val::mkAgg(n);
        for (unsigned i = 0; i < n; ++i) {
            Val ai = binop(K::Add, addr, Val((uint64_t) (i * ew / 8)), 64);
            r.at(i) = loadType(st, ai, et, guard);
        }
        return r;
    }
    if (auto *stt = dyn_cast<StructType>(t)) {
        Val r = Val::mkAgg(stt->getNumElements());
        const StructLayout *sl = DL->getStructLayout(stt);
        for (unsigned i = 0; i < stt->getNumElements(); ++i)
            r.at(i) = loadType(st, binop(K::Add, addr, Val((uint64_t) sl->getElementOffset(i)), 64), stt->getElementType(i), guard);
        return r;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        Val r = Val::mkAgg(at->getNumElements());
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); ++i)
            r.at(i) = loadType(st, binop(K::Add, addr, Val(i * es), 64), at->getElementType(), guard);
        return r;
    }
    unsigned n = storeSize(t), w = bits(t);
    Val v = addr.e ? loadSym(st, addr, n, guard) : readMem(st, (uint64_t) addr.c, n);
    if (w != n * 8) { if (v.e) v = Val::sym(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
    return v;
}
void Exec::storeType(State &st, const Val &addr, Type *t, const Val &v, E guard) {
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        Type *et = vt->getElementType();
        unsigned ew = bits(et), n = vt->getNumElements();
        if (ew % 8) {
            unsigned nb = (ew * n + 7) / 8;
            E r = nullptr;
            for (unsigned i = 0; i < n; ++i) { E x = toE(v.at(i), ew); r = r ? mkConcat(x, r) : x; }
            r = mkZExt(r, nb * 8);
            if (addr.e || guard) storeSym(st, addr.e ? addr : Val::sym(mkConst(addr.c, 64)), nb, Val::sym(r), guard);
            else writeMem(st, (uint64_t) addr.c, nb, Val::sym(r));
            return;
        }
        for (unsigned i = 0; i < n; ++i)
            storeType(st, binop(K::Add, addr, Val((uint64_t) (i * ew / 8)), 64), et, v.at(i), guard);
        return;
    }
    if (auto *stt = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(stt);
        for (unsigned i = 0; i < stt->getNumElements(); ++i)
            storeType(st, binop(K::Add, addr, Val((uint64_t) sl->getElementOffset(i)), 64), stt->getElementType(i), v.at(i), guard);
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); ++i)
            storeType(st, binop(K::Add, addr, Val(i * es), 64), at->getElementType(), v.at(i), guard);
        return;
    }
    unsigned n = storeSize(t), w = bits(t);
    Val x = v;
    if (w != n * 8 && x.e) x = Val::sym(mkZExt(x.e, n * 8));
    if (guard) {
        if (!addr.e) {
            Obj *o = find(st, (uint64_t) addr.c);
            if (!o || o->freed || (uint64_t) addr.c + n > o->addr + o->size) {
                if (mayBe(st, guard) == 0) return;
                report(st, "memory", "out-of-bounds masked write", guard);
                throw Terminate{ "error", "oob masked write" };
            }
            E old = toE(readMem(st, (uint64_t) addr.c, n), n * 8);
            writeMem(st, (uint64_t) addr.c, n, Val::sym(mkIte(guard, toE(x, n * 8), old)));
        } else storeSym(st, addr, n, x, guard);
        return;
    }
    if (addr.e) storeSym(st, addr, n, x, nullptr);
    else writeMem(st, (uint64_t) addr.c, n, x);
}

// --------------------------------------------------------- path conditions
E Exec::subst(State &st, E e) {
    if (e->isConst()) return e;
    if (!st.eqc.empty()) {
        auto it = st.eqc.find(e);
        if (it != st.eqc.end()) return mkConst(it->second, e->w);
    }
    if (e->w == 1) {
        auto it = st.known.find(e);
        if (it != st.known.end()) return mkConst(it->second, 1);
    }
    return e;
}
void Exec::assume(State &st, E c) {
    if (c->isConst()) return;
    if (!st.known.emplace(c, true).second) return;
    if (c->k == K::Xor && c->op[1]->isConst() && c->op[1]->c == 1) {
        st.known[c->op[0]] = false;
        E o = c->op[0];
        if (o->k == K::Or) { assume(st, mkNot(o->op[0])); assume(st, mkNot(o->op[1])); return; }
    } else {
        st.known[mkNot(c)] = false;
        if (c->k == K::And) { assume(st, c->op[0]); assume(st, c->op[1]); return; }
        if (c->k == K::Eq && c->op[1]->isConst()) {
            st.eqc[c->op[0]] = c->op[1]->c;
        }
    }
    st.pc.push_back(c);
    if (st.modelValid) {
        Evaluator ev(st.model);
        if (!ev.eval(c) || !ev.ok) st.modelValid = false;
    }
}
bool Exec::getModel(State &st, Assignment &out, E extra) {
    if (!extra && st.modelValid) { out = st.model; return true; }
    std::vector<E> cs = st.pc;
    if (extra) cs.push_back(extra);
    Res r = solverCheck(cs, &out, extra != nullptr);
    if (r == Res::Sat) {
        if (!extra) { st.model = out; st.modelValid = true; for (E e : st.pc) if (e->uf) st.modelValid = false; }
        return true;
    }
    return false;
}
int Exec::mayBe(State &st, E c) {
    c = subst(st, c);
    if (c->isConst()) return c->c ? 1 : 0;
    if (st.modelValid && !c->uf) {
        Evaluator ev(st.model);
        if (ev.eval(c) && ev.ok) return 1;
    }
    std::vector<E> cs = st.pc;
    cs.push_back(c);
    Assignment m;
    Res r = solverCheck(cs, &m);
    return r == Res::Sat ? 1 : r == Res::Unsat ? 0 : -1;
}
void Exec::fork(State &st, E other) {
    forks++;
    auto n = std::make_unique<State>(st);
    n->depth++;
    assume(*n, other);
    work.push_back(std::move(n));
}
bool Exec::branch(State &st, E c) {
    c = subst(st, c);
    if (c->isConst()) return c->c != 0;
    int t = mayBe(st, c);
    E nc = mkNot(c);
    if (t == 0) { assume(st, nc); return false; }
    int f = mayBe(st, nc);
    if (f == 0) { assume(st, c); return true; }
    fork(st, nc);
    assume(st, c);
    return true;
}
uint64_t Exec::u64(State &st, const Val &v, unsigned w, const char *what) {
    if (v.agg) throw Terminate{ "unsupported", std::string("aggregate where a scalar was expected: ") + what };
    if (!v.e) return (uint64_t) v.c;
    for (unsigned i = 0; i < 4096; ++i) {
        E e = subst(st, v.e);
        if (e->isConst()) return (uint64_t) e->c;
        Assignment m;
        if (!getModel(st, m)) throw Terminate{ "incomplete", std::string("no model while concretizing ") + what };
        Evaluator ev(m);
        u128 val = ev.eval(e);
        if (!ev.ok) throw Terminate{ "incomplete", std::string("cannot concretize ") + what };
        if (branch(st, mkEq(e, mkConst(val, e->w)))) return (uint64_t) val;
    }
    throw Terminate{ "incomplete", std::string("too many values for ") + what };
}
std::string Exec::where(State &st) {
    auto &t = st.th();
    for (size_t i = t.frames.size(); i-- > 0;) {
        Frame &f = t.frames[i];
        if (f.pc >= f.f->insts.size()) continue;
        if (const DebugLoc &dl = f.f->insts[f.pc].I->getDebugLoc()) {
            return std::string(dl->getFilename()) + ":" + std::to_string(dl->getLine());
        }
    }
    return "?";
}
std::string Exec::backtrace(State &st, unsigned n) {
    std::string s;
    auto &t = st.th();
    for (size_t i = t.frames.size(); i-- > 0 && n-- > 0;) {
        Frame &f = t.frames[i];
        s += "  " + f.f->name;
        if (f.pc < f.f->insts.size())
            if (const DebugLoc &dl = f.f->insts[f.pc].I->getDebugLoc())
                s += " " + std::string(dl->getFilename()) + ":" + std::to_string(dl->getLine());
        s += "\n";
    }
    return s;
}
void Exec::collectInputs(State &st, const Assignment &m, std::vector<std::pair<Input, u128>> &out) {
    Evaluator ev(m);
    for (auto &i : st.inputs) out.push_back({ i, ev.eval(i.e) });
}
void Exec::report(State &st, const std::string &kind, const std::string &msg, E cond) {
    Assignment m;
    if (!getModel(st, m, cond)) {
        incomplete = true; incompleteWhy = "no model for a violation: " + msg;
        return;
    }
    std::string loc = where(st), key = kind + "|" + msg + "|" + loc;
    if (violKeys[key]++ >= 2) return;
    if (violations.size() >= 40) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.loc = loc;
    v.detail = backtrace(st);
    collectInputs(st, m, v.inputs);
    violations.push_back(std::move(v));
}

// ------------------------------------------------------------------ values
Val Exec::binop(K k, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
        u128 v[2] = { a.c, b.c }, o; unsigned vw[2] = { w, w };
        foldOp(k, w, 0, v, vw, o);
        return Val(o);
    }
    return Val::sym(mk2(k, toE(a, w), toE(b, w)));
}
Val Exec::cmpop(K k, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
        u128 v[2] = { a.c, b.c }, o; unsigned vw[2] = { w, w };
        foldOp(k, 1, 0, v, vw, o);
        return Val(o);
    }
    return Val::sym(mk2(k, toE(a, w), toE(b, w)));
}
Val Exec::fbin(K k, const Val &a, const Val &b, unsigned w) { return Val::sym(mkFp2(k, toE(a, w), toE(b, w))); }
Val Exec::iteV(E c, const Val &t, const Val &f, Type *ty) {
    if (c->isConst()) return c->c ? t : f;
    if (t.agg) {
        Val r = Val::mkAgg(t.size());
        for (size_t i = 0; i < t.size(); ++i) {
            Type *et = isa<StructType>(ty) ? cast<StructType>(ty)->getElementType((unsigned) i)
                     : isa<ArrayType>(ty) ? cast<ArrayType>(ty)->getElementType() : cast<VectorType>(ty)->getElementType();
            r.at(i) = iteV(c, t.at(i), f.at(i), et);
        }
        return r;
    }
    unsigned w = bits(ty);
    return Val::sym(mkIte(c, toE(t, w), toE(f, w)));
}
Val Exec::mapLanes(Type *t, const std::function<Val(unsigned)> &fn) {
    unsigned n = cast<FixedVectorType>(t)->getNumElements();
    Val r = Val::mkAgg(n);
    for (unsigned i = 0; i < n; ++i) r.at(i) = fn(i);
    return r;
}
Val Exec::bitcast(const Val &v, Type *from, Type *to) {
    auto *fv = dyn_cast<FixedVectorType>(from), *tv = dyn_cast<FixedVectorType>(to);
    if (!fv && !tv) return v;
    unsigned fn = fv ? fv->getNumElements() : 1, tn = tv ? tv->getNumElements() : 1;
    unsigned fw = bits(from->getScalarType()), tw = bits(to->getScalarType());
    if (fw == tw) {
        if (fv && tv) return v;
        if (tv) { Val r = Val::mkAgg(1); r.at(0) = v; return r; }
        return v.at(0);
    }
    auto piece = [&](unsigned bit, unsigned n) -> E { // n bits starting at 'bit', within one source lane
        unsigned l = bit / fw;
        const Val &s = fv ? v.at(l) : v;
        return mkExtract(toE(s, fw), bit - l * fw, n);
    };
    auto build = [&](unsigned lane) -> Val {
        unsigned bit = lane * tw, left = tw;
        E r = nullptr;
        while (left) {
            unsigned n = std::min(left, fw - bit % fw);
            E p = piece(bit, n);
            r = r ? mkConcat(p, r) : p;
            bit += n; left -= n;
        }
        return Val::sym(r);
    };
    if (!tv) return build(0);
    Val r = Val::mkAgg(tn);
    for (unsigned i = 0; i < tn; ++i) r.at(i) = build(i);
    (void) fn;
    return r;
}
Val Exec::scalarCast(unsigned op, const Val &v, unsigned sw, unsigned dw, Type *from, Type *to) {
    switch (op) {
        case Instruction::Trunc: return v.e ? Val::sym(mkExtract(v.e, 0, dw)) : Val(v.c & maskw(dw));
        case Instruction::ZExt: return v.e ? Val::sym(mkZExt(v.e, dw)) : v;
        case Instruction::SExt: return v.e ? Val::sym(mkSExt(v.e, dw)) : Val((u128) sextw(v.c, sw) & maskw(dw));
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            if (dw < sw) return scalarCast(Instruction::Trunc, v, sw, dw, from, to);
            if (dw > sw) return scalarCast(Instruction::ZExt, v, sw, dw, from, to);
            return v;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
        case Instruction::FPToSI: return Val::sym(mkFp1(K::FToSI, toE(v, sw), dw));
        case Instruction::FPToUI: return Val::sym(mkFp1(K::FToUI, toE(v, sw), dw));
        case Instruction::SIToFP: return Val::sym(mkFp1(K::SIToF, toE(v, sw), dw));
        case Instruction::UIToFP: return Val::sym(mkFp1(K::UIToF, toE(v, sw), dw));
        case Instruction::FPExt: case Instruction::FPTrunc:
            if (from->isX86_FP80Ty() || to->isX86_FP80Ty()) throw Terminate{ "unsupported", "long double" };
            return Val::sym(mkFp1(K::FCvt, toE(v, sw), dw));
        default: throw Terminate{ "unsupported", "cast" };
    }
}
Val Exec::castOp(unsigned op, const Val &v, Type *from, Type *to, bool) {
    if (op == Instruction::BitCast) return bitcast(v, from, to);
    if (to->isVectorTy()) {
        unsigned sw = bits(from->getScalarType()), dw = bits(to->getScalarType());
        return mapLanes(to, [&](unsigned i) { return scalarCast(op, v.at(i), sw, dw, from->getScalarType(), to->getScalarType()); });
    }
    return scalarCast(op, v, bits(from), bits(to), from, to);
}

// ----------------------------------------------------------------- control
void Exec::jump(State &st, const BasicBlock *to) {
    Frame &f = st.fr();
    const BasicBlock *from = f.f->insts[f.pc].I->getParent();
    unsigned start = f.f->bb[to];
    f.prev = from;
    // evaluate all PHIs in parallel
    unsigned i = start;
    static thread_local std::vector<Val> tmp;
    tmp.clear();
    for (; isa<PHINode>(f.f->insts[i].I); ++i) {
        const PHINode *phi = cast<PHINode>(f.f->insts[i].I);
        int idx = phi->getBasicBlockIndex(from);
        int o = f.f->insts[i].ops[idx];
        tmp.push_back(o >= 0 ? f.regs[o] : f.f->consts[~o]);
    }
    for (unsigned j = start; j < i; ++j) f.regs[f.f->insts[j].dst] = std::move(tmp[j - start]);
    f.pc = i;
}
void Exec::pushFrame(State &st, KFunc *f, std::vector<Val> &&args, const CallBase *cb) {
    prepare(f);
    if (!f->counted) {
        f->counted = true;
        functions.insert(f->name);
        if (DISubprogram *sp = f->F->getSubprogram()) srcs.insert(sp->getFilename().str());
    }
    Thread &t = st.th();
    if (t.frames.size() > 4000) throw Terminate{ "error", "call stack too deep" };
    Frame nf;
    nf.f = f;
    nf.regs.resize(f->nregs);
    nf.stackMark = (uint32_t) t.stack.size();
    size_t np = f->F->arg_size();
    for (size_t i = 0; i < args.size(); ++i) {
        if (i < np) {
            if (cb && i < cb->arg_size() && cb->isByValArgument((unsigned) i)) {
                Type *bt = cb->getParamByValType((unsigned) i);
                uint64_t sz = DL->getTypeAllocSize(bt), src = u64(st, args[i], 64, "byval pointer");
                uint64_t a = allocStack(st, sz, 16, "byval");
                for (uint64_t k = 0; k < sz; ++k) writeMem(st, a + k, 1, readMem(st, src + k, 1));
                nf.regs[i] = Val(a);
            } else nf.regs[i] = std::move(args[i]);
        } else nf.varargs.push_back(std::move(args[i]));
    }
    st.th().frames.push_back(std::move(nf));
}
void Exec::doReturn(State &st, const Val &v0) {
    Val v = v0;
    Thread &t = st.th();
    uint32_t mark = t.frames.back().stackMark;
    t.frames.pop_back();
    while (t.stack.size() > mark) { t.sp = t.stack.back().p->addr; t.stack.pop_back(); }
    if (t.frames.empty()) { t.done = true; t.ret = v; return; }
    Frame &f = t.frames.back();
    const KInst &ki = f.f->insts[f.pc];
    if (ki.dst >= 0) f.regs[ki.dst] = std::move(v);
    if (auto *inv = dyn_cast<InvokeInst>(ki.I)) jump(st, inv->getNormalDest());
    else f.pc++;
}
static std::string typeName(State &st, uint64_t ti) {
    Obj *o = g_exec->find(st, ti);
    return o ? o->name : "?";
}
static const char *stdBase(const std::string &n) {
    static const std::map<std::string, const char *> m = {
        { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt11logic_error", "_ZTISt9exception" },
        { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt12length_error", "_ZTISt11logic_error" },
        { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" },
        { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" },
        { "_ZTISt12system_error", "_ZTISt13runtime_error" },
    };
    auto it = m.find(n);
    return it == m.end() ? nullptr : it->second;
}
bool Exec::excMatch(State &st, uint64_t thrown, uint64_t want) {
    if (want == 0) return true;
    std::string w = typeName(st, want);
    uint64_t cur = thrown;
    std::string n = typeName(st, cur);
    for (int i = 0; i < 8; ++i) {
        if (cur == want || n == w) return true;
        if (const char *b = stdBase(n)) { n = b; cur = 0; continue; }
        Obj *o = cur ? find(st, cur) : nullptr;
        if (!o || o->size < 24) return false;
        uint64_t vt = (uint64_t) readMem(st, cur, 8).c;
        Obj *vo = find(st, vt);
        if (!vo || vo->name.find("si_class_type_info") == std::string::npos) return false;
        cur = (uint64_t) readMem(st, cur + 16, 8).c;
        n = typeName(st, cur);
    }
    return false;
}
void Exec::unwind(State &st, uint64_t exc, bool popFirst) {
    Thread &t = st.th();
    uint64_t ti = st.exc[exc].tinfo;
    bool first = true;
    while (!t.frames.empty()) {
        if (!(first && !popFirst)) {
            uint32_t mark = t.frames.back().stackMark;
            t.frames.pop_back();
            while (t.stack.size() > mark) { t.sp = t.stack.back().p->addr; t.stack.pop_back(); }
            if (t.frames.empty()) break;
        }
        first = false;
        Frame &f = t.frames.back();
        const KInst &ki = f.f->insts[f.pc];
        auto *inv = dyn_cast<InvokeInst>(ki.I);
        if (!inv) {
            if (f.f->F->doesNotThrow() && !f.f->jit) { report(st, "terminate", "exception escapes a noexcept function"); throw Terminate{ "error", "std::terminate" }; }
            continue;
        }
        const LandingPadInst *lp = inv->getUnwindDest()->getLandingPadInst();
        bool enter = lp->isCleanup();
        uint32_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (!lp->isCatch(i)) continue;
            uint64_t want = (uint64_t) evalConst(lp->getClause(i)).c;
            if (excMatch(st, ti, want)) {
                enter = true;
                if (want == 0) sel = 0x7fffffff;
                else { auto &id = typeIds[want]; if (!id) id = (uint32_t) typeIds.size(); sel = id; }
                break;
            }
        }
        if (enter) {
            t.lpExc = Val(exc); t.lpSel = sel;
            jump(st, inv->getUnwindDest());
            return;
        }
    }
    // re-create a frame-less state for reporting
    std::string what;
    report(st, "exception", "uncaught exception of type " + typeName(st, ti));
    throw Terminate{ "error", "uncaught exception" };
}
void Exec::call(State &st, const CallBase *cb, KFunc *f, std::vector<Val> &&args) {
    if (f->builtin) {
        CallInfo ci;
        ci.cb = cb; ci.target = f; ci.args = std::move(args);
        unsigned curThread = st.cur;
        (*f->builtin)(*this, st, ci);
        if (ci.pushed || ci.threw) return;
        Thread &t = st.threads[curThread];
        Frame &fr = t.frames.back();
        const KInst &ki = fr.f->insts[fr.pc];
        if (ki.dst >= 0) {
            unsigned w = bits(ki.I->getType());
            if (w && !ci.ret.e && !ci.ret.agg) ci.ret.c &= maskw(w);
            fr.regs[ki.dst] = std::move(ci.ret);
        }
        unsigned save = st.cur; st.cur = curThread;
        if (auto *inv = dyn_cast<InvokeInst>(ki.I)) jump(st, inv->getNormalDest());
        else fr.pc++;
        st.cur = save;
        return;
    }
    if (!f->F || f->F->isDeclaration())
        throw Terminate{ "unsupported", "call to unmodelled external function " + f->name };
    pushFrame(st, f, std::move(args), cb);
}

static bool isSchedPoint(const Instruction *I) {
    if (I->isAtomic()) return true;
    if (auto *c = dyn_cast<CallBase>(I)) {
        if (auto *f = c->getCalledFunction()) {
            StringRef n = f->getName();
            return n == "sym_yield" || n == "sym_thread_join" || n == "pthread_mutex_lock" || n == "pthread_mutex_unlock";
        }
    }
    return false;
}

void Exec::step(State &st) {
    Thread &t = st.th();
    Frame &f = t.frames.back();
    const KInst &ki = f.f->insts[f.pc];
    const Instruction *I = ki.I;
    st.insts++;
    insts++;

    if (st.threads.size() > 1 && !st.schedDecided && isSchedPoint(I)) {
        // Let every other runnable thread run at this point (bounded preemptions)
        if (st.preempts < cfg.maxPreempt) {
            for (unsigned i = 0; i < st.threads.size(); ++i) {
                if (i == st.cur || st.threads[i].done || st.threads[i].spinning) continue;
                if (st.threads[i].joinOn >= 0 && !st.threads[st.threads[i].joinOn].done) continue;
                forks++;
                auto n = std::make_unique<State>(st);
                n->cur = i; n->preempts++; n->schedDecided = true;
                work.push_back(std::move(n));
            }
        }
        st.schedDecided = true;
    }
    struct ResetSched { State &s; bool act; ~ResetSched() { if (act) s.schedDecided = false; } } rs{ st, st.threads.size() > 1 };

#define OP(i) get(f, ki, i)
    switch (ki.op) {
        case Instruction::Ret:
            if (ki.ops.empty()) doReturn(st, Val());
            else doReturn(st, OP(0));
            return;
        case Instruction::Br: {
            auto *br = cast<BranchInst>(I);
            if (br->isUnconditional()) { jump(st, br->getSuccessor(0)); return; }
            Val c = OP(0);
            bool b;
            if (c.e) b = branch(st, c.e); else b = c.c & 1;
            jump(st, br->getSuccessor(b ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(I);
            Val c = subst(st, OP(0), bits(sw->getCondition()->getType()));
            if (!c.e) {
                for (auto &cs : sw->cases()) {
                    if ((u128) cs.getCaseValue()->getZExtValue() == c.c) { jump(st, cs.getCaseSuccessor()); return; }
                }
                jump(st, sw->getDefaultDest());
                return;
            }
            for (auto &cs : sw->cases()) {
                E q = mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), c.e->w));
                if (branch(st, q)) { jump(st, cs.getCaseSuccessor()); return; }
            }
            jump(st, sw->getDefaultDest());
            return;
        }
        case Instruction::Unreachable:
            report(st, "unreachable", "unreachable code executed");
            throw Terminate{ "error", "unreachable" };
        case Instruction::Resume: {
            uint64_t exc = (uint64_t) OP(0).at(0).c;
            unwind(st, exc, true);
            return;
        }
        case Instruction::LandingPad: {
            Val v = Val::mkAgg(2);
            v.at(0) = t.lpExc; v.at(1) = Val(t.lpSel);
            setDst(st, ki, v);
            f.pc++;
            return;
        }
        case Instruction::FNeg: {
            Type *ty = I->getType();
            unsigned w = bits(ty->getScalarType());
            Val sb((u128) 1 << (w - 1));
            Val a = OP(0);
            if (ty->isVectorTy()) setDst(st, ki, mapLanes(ty, [&](unsigned i) { return binop(K::Xor, a.at(i), sb, w); }));
            else setDst(st, ki, binop(K::Xor, a, sb, w));
            f.pc++; return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            K k = ki.op == Instruction::FAdd ? K::FAdd : ki.op == Instruction::FSub ? K::FSub : ki.op == Instruction::FMul ? K::FMul : ki.op == Instruction::FDiv ? K::FDiv : K::FRem;
            Type *ty = I->getType();
            unsigned w = bits(ty->getScalarType());
            if (w == 80) throw Terminate{ "unsupported", "long double arithmetic" };
            Val a = OP(0), b = OP(1);
            if (ty->isVectorTy()) setDst(st, ki, mapLanes(ty, [&](unsigned i) { return fbin(k, a.at(i), b.at(i), w); }));
            else setDst(st, ki, fbin(k, a, b, w));
            f.pc++; return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            static const std::map<unsigned, K> km = { { Instruction::Add, K::Add }, { Instruction::Sub, K::Sub }, { Instruction::Mul, K::Mul },
                { Instruction::UDiv, K::UDiv }, { Instruction::SDiv, K::SDiv }, { Instruction::URem, K::URem }, { Instruction::SRem, K::SRem },
                { Instruction::Shl, K::Shl }, { Instruction::LShr, K::LShr }, { Instruction::AShr, K::AShr }, { Instruction::And, K::And },
                { Instruction::Or, K::Or }, { Instruction::Xor, K::Xor } };
            K k;
            switch (ki.op) { case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; default: k = km.at(ki.op); }
            Type *ty = I->getType();
            if (ty->isVectorTy()) {
                unsigned w = bits(ty->getScalarType());
                Val a = OP(0), b = OP(1);
                setDst(st, ki, mapLanes(ty, [&](unsigned i) { return binop(k, a.at(i), b.at(i), w); }));
            } else {
                const Val &a = OP(0), &b = OP(1);
                if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && !f.f->jit) {
                    E z = mkEq(toE(b, ki.w), mkConst(0, ki.w));
                    if (!z->isConst() || z->c) {
                        if (branch(st, z)) { report(st, "arith", "division by zero"); throw Terminate{ "error", "division by zero" }; }
                    }
                    if (k == K::SDiv || k == K::SRem) {
                        E ov = mkAnd(mkEq(toE(b, ki.w), mkConst(maskw(ki.w), ki.w)), mkEq(toE(a, ki.w), mkConst((u128) 1 << (ki.w - 1), ki.w)));
                        if ((!ov->isConst() || ov->c) && ki.w >= 32) {
                            if (branch(st, ov)) { report(st, "arith", "signed division overflow"); throw Terminate{ "error", "division overflow" }; }
                        }
                    }
                }
                Val r = binop(k, a, b, ki.w);
                f.regs[ki.dst] = std::move(r);
            }
            f.pc++; return;
        }
        case Instruction::ICmp: {
            auto *ic = cast<ICmpInst>(I);
            Type *ty = ic->getOperand(0)->getType();
            unsigned w = bits(ty->getScalarType());
            bool swap = false, neg = false; K k;
            switch (ic->getPredicate()) {
                case CmpInst::ICMP_EQ: k = K::Eq; break;
                case CmpInst::ICMP_NE: k = K::Eq; neg = true; break;
                case CmpInst::ICMP_ULT: k = K::Ult; break;
                case CmpInst::ICMP_UGT: k = K::Ult; swap = true; break;
                case CmpInst::ICMP_ULE: k = K::Ult; swap = true; neg = true; break;
                case CmpInst::ICMP_UGE: k = K::Ult; neg = true; break;
                case CmpInst::ICMP_SLT: k = K::Slt; break;
                case CmpInst::ICMP_SGT: k = K::Slt; swap = true; break;
                case CmpInst::ICMP_SLE: k = K::Slt; swap = true; neg = true; break;
                default: k = K::Slt; neg = true; break;
            }
            auto one = [&](const Val &x, const Val &y) {
                Val r = swap ? cmpop(k, y, x, w) : cmpop(k, x, y, w);
                if (neg) { if (r.e) r = Val::sym(mkNot(r.e)); else r.c ^= 1; }
                return r;
            };
            if (ty->isVectorTy()) { Val a = OP(0), b = OP(1); setDst(st, ki, mapLanes(I->getType(), [&](unsigned i) { return one(a.at(i), b.at(i)); })); }
            else f.regs[ki.dst] = one(OP(0), OP(1));
            f.pc++; return;
        }
        case Instruction::FCmp: {
            auto *fc = cast<FCmpInst>(I);
            Type *ty = fc->getOperand(0)->getType();
            unsigned w = bits(ty->getScalarType());
            if (w == 80) throw Terminate{ "unsupported", "long double compare" };
            auto one = [&](const Val &x, const Val &y) -> Val {
                E a = toE(x, w), b = toE(y, w);
                E uno = nullptr;
                auto U = [&]() { if (!uno) uno = mkOr(mkFp1(K::FIsNan, a, 1), mkFp1(K::FIsNan, b, 1)); return uno; };
                E eq, lt, gt;
                switch (fc->getPredicate()) {
                    case CmpInst::FCMP_FALSE: return Val(0);
                    case CmpInst::FCMP_TRUE: return Val(1);
                    case CmpInst::FCMP_OEQ: return Val::sym(mkFp2(K::FEq, a, b));
                    case CmpInst::FCMP_UNE: return Val::sym(mkNot(mkFp2(K::FEq, a, b)));
                    case CmpInst::FCMP_OLT: return Val::sym(mkFp2(K::FLt, a, b));
                    case CmpInst::FCMP_OGT: return Val::sym(mkFp2(K::FLt, b, a));
                    case CmpInst::FCMP_OLE: return Val::sym(mkFp2(K::FLe, a, b));
                    case CmpInst::FCMP_OGE: return Val::sym(mkFp2(K::FLe, b, a));
                    case CmpInst::FCMP_ULT: return Val::sym(mkNot(mkFp2(K::FLe, b, a)));
                    case CmpInst::FCMP_UGT: return Val::sym(mkNot(mkFp2(K::FLe, a, b)));
                    case CmpInst::FCMP_ULE: return Val::sym(mkNot(mkFp2(K::FLt, b, a)));
                    case CmpInst::FCMP_UGE: return Val::sym(mkNot(mkFp2(K::FLt, a, b)));
                    case CmpInst::FCMP_UNO: return Val::sym(U());
                    case CmpInst::FCMP_ORD: return Val::sym(mkNot(U()));
                    case CmpInst::FCMP_UEQ: return Val::sym(mkOr(U(), mkFp2(K::FEq, a, b)));
                    case CmpInst::FCMP_ONE: return Val::sym(mkAnd(mkNot(U()), mkNot(mkFp2(K::FEq, a, b))));
                    default: return Val(0);
                }
            };
            if (ty->isVectorTy()) { Val a = OP(0), b = OP(1); setDst(st, ki, mapLanes(I->getType(), [&](unsigned i) { return one(a.at(i), b.at(i)); })); }
            else setDst(st, ki, one(OP(0), OP(1)));
            f.pc++; return;
        }
        case Instruction::Select: {
            Type *ct = I->getOperand(0)->getType(), *ty = I->getType();
            const Val &c = OP(0);
            if (ct->isVectorTy()) {
                Val cc = c, a = OP(1), b = OP(2);
                Type *et = ty->getScalarType();
                setDst(st, ki, mapLanes(ty, [&](unsigned i) { return cc.at(i).e ? iteV(cc.at(i).e, a.at(i), b.at(i), et) : (cc.at(i).c & 1) ? a.at(i) : b.at(i); }));
            } else if (!c.e) {
                Val v = (c.c & 1) ? OP(1) : OP(2);
                f.regs[ki.dst] = std::move(v);
            } else {
                E ce = subst(st, c.e);
                if (ty->isPointerTy() && !ce->isConst()) {
                    // fork on pointer selection to keep pointers concrete
                    bool b = branch(st, ce);
                    Val v = b ? OP(1) : OP(2);
                    f.regs[ki.dst] = std::move(v);
                } else setDst(st, ki, iteV(ce, OP(1), OP(2), ty));
            }
            f.pc++; return;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI:
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::PtrToInt:
        case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            Val r = castOp(ki.op, OP(0), I->getOperand(0)->getType(), I->getType(), false);
            f.regs[ki.dst] = std::move(r);
            f.pc++; return;
        }
        case Instruction::Freeze: { Val v = OP(0); f.regs[ki.dst] = std::move(v); f.pc++; return; }
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(I);
            uint64_t n = u64(st, OP(0), bits(I->getOperand(0)->getType()), "alloca size");
            uint64_t sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
            uint64_t a = allocStack(st, sz, ai->getAlign().value(), "stack");
            setDst(st, ki, Val(a));
            f.pc++; return;
        }
        case Instruction::Load: {
            Val a = subst(st, OP(0), 64);
            Val v = loadType(st, a, I->getType());
            Frame &f2 = st.fr();
            f2.regs[ki.dst] = std::move(v);
            f2.pc++; return;
        }
        case Instruction::Store: {
            Val a = subst(st, OP(1), 64);
            Val v = OP(0);
            storeType(st, a, I->getOperand(0)->getType(), v);
            if (st.threads.size() > 1) for (auto &th : st.threads) th.spinning = false;
            st.fr().pc++; return;
        }
        case Instruction::GetElementPtr: {
            Type *ty = I->getType();
            if (ty->isVectorTy()) {
                Val base = OP(0);
                bool bv = I->getOperand(0)->getType()->isVectorTy();
                std::vector<Val> idx;
                for (auto &p : ki.gepIdx) idx.push_back(p.first >= 0 ? f.regs[p.first] : f.f->consts[~p.first]);
                setDst(st, ki, mapLanes(ty, [&](unsigned l) {
                    Val r = binop(K::Add, bv ? base.at(l) : base, Val((uint64_t) ki.gepOff), 64);
                    for (size_t j = 0; j < idx.size(); ++j) {
                        Val x = idx[j].agg ? idx[j].at(l) : idx[j];
                        x = scalarCast(ki.gepW[j] > 64 ? Instruction::Trunc : Instruction::SExt, x, ki.gepW[j], 64, nullptr, nullptr);
                        x = binop(K::Mul, x, Val((uint64_t) ki.gepIdx[j].second), 64);
                        r = binop(K::Add, r, x, 64);
                    }
                    return r; }));
                f.pc++; return;
            }
            Val r = OP(0);
            if (ki.gepOff) r = binop(K::Add, r, Val((uint64_t) ki.gepOff), 64);
            for (size_t j = 0; j < ki.gepIdx.size(); ++j) {
                int o = ki.gepIdx[j].first;
                const Val &xi = o >= 0 ? f.regs[o] : f.f->consts[~o];
                if (!xi.e && !r.e) {
                    r = Val((uint64_t) r.c + (uint64_t) ((s128) sextw(xi.c, ki.gepW[j]) * ki.gepIdx[j].second));
                } else {
                    Val x = ki.gepW[j] == 64 ? xi : scalarCast(Instruction::SExt, xi, ki.gepW[j], 64, nullptr, nullptr);
                    x = binop(K::Mul, x, Val((uint64_t) ki.gepIdx[j].second), 64);
                    r = binop(K::Add, r, x, 64);
                }
            }
            f.regs[ki.dst] = std::move(r);
            f.pc++; return;
        }
        case Instruction::ExtractValue: {
            auto *ev = cast<ExtractValueInst>(I);
            Val v = OP(0);
            for (unsigned i : ev->indices()) { Val n = v.at(i); v = n; }
            f.regs[ki.dst] = std::move(v);
            f.pc++; return;
        }
        case Instruction::InsertValue: {
            auto *iv = cast<InsertValueInst>(I);
            Val v = OP(0), x = OP(1);
            std::function<Val(Val, unsigned)> rec = [&](Val a, unsigned d) -> Val {
                if (d == iv->getNumIndices()) return x;
                a.own();
                Val sub = a.at(iv->getIndices()[d]);
                a.at(iv->getIndices()[d]) = rec(sub, d + 1);
                return a;
            };
            setDst(st, ki, rec(v, 0));
            f.pc++; return;
        }
        case Instruction::ExtractElement: {
            Val v = OP(0);
            const Val &ix = OP(1);
            unsigned n = (unsigned) v.size();
            if (!ix.e) {
                if (ix.c >= n) throw Terminate{ "error", "extractelement out of range" };
                Val r = v.at((size_t) ix.c);
                f.regs[ki.dst] = std::move(r);
            }
            else {
                E r = toE(v.at(n - 1), ki.w);
                for (unsigned i = n - 1; i-- > 0;) r = mkIte(mkEq(ix.e, mkConst(i, ix.e->w)), toE(v.at(i), ki.w), r);
                setDst(st, ki, Val::sym(r));
            }
            f.pc++; return;
        }
        case Instruction::InsertElement: {
            Val v = OP(0), x = OP(1);
            const Val &ix = OP(2);
            v.own();
            if (!ix.e) {
                if (ix.c >= v.size()) throw Terminate{ "error", "insertelement out of range" };
                v.at((size_t) ix.c) = x;
            }
            else {
                unsigned w = bits(I->getType()->getScalarType());
                for (unsigned i = 0; i < v.size(); ++i)
                    v.at(i) = Val::sym(mkIte(mkEq(ix.e, mkConst(i, ix.e->w)), toE(x, w), toE(v.at(i), w)));
            }
            setDst(st, ki, v);
            f.pc++; return;
        }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(I);
            Val a = OP(0), b = OP(1);
            int n = (int) a.size();
            auto mask = sv->getShuffleMask();
            Val r = Val::mkAgg(mask.size());
            for (size_t i = 0; i < mask.size(); ++i) if (mask[i] >= 0) r.at(i) = mask[i] < n ? a.at(mask[i]) : b.at(mask[i] - n);
            setDst(st, ki, r);
            f.pc++; return;
        }
        case Instruction::AtomicRMW: {
            auto *rmw = cast<AtomicRMWInst>(I);
            Type *ty = I->getType();
            unsigned w = bits(ty);
            Val a = subst(st, OP(0), 64), v = OP(1), old = loadType(st, a, ty), nv;
            switch (rmw->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = binop(K::Add, old, v, w); break;
                case AtomicRMWInst::Sub: nv = binop(K::Sub, old, v, w); break;
                case AtomicRMWInst::And: nv = binop(K::And, old, v, w); break;
                case AtomicRMWInst::Or: nv = binop(K::Or, old, v, w); break;
                case AtomicRMWInst::Xor: nv = binop(K::Xor, old, v, w); break;
                case AtomicRMWInst::UMax: nv = Val::sym(mkIte(mk2(K::Ult, toE(old, w), toE(v, w)), toE(v, w), toE(old, w))); break;
                case AtomicRMWInst::UMin: nv = Val::sym(mkIte(mk2(K::Ult, toE(v, w), toE(old, w)), toE(v, w), toE(old, w))); break;
                case AtomicRMWInst::Max: nv = Val::sym(mkIte(mk2(K::Slt, toE(old, w), toE(v, w)), toE(v, w), toE(old, w))); break;
                case AtomicRMWInst::Min: nv = Val::sym(mkIte(mk2(K::Slt, toE(v, w), toE(old, w)), toE(v, w), toE(old, w))); break;
                case AtomicRMWInst::FAdd: nv = fbin(K::FAdd, old, v, w); break;
                case AtomicRMWInst::FSub: nv = fbin(K::FSub, old, v, w); break;
                case AtomicRMWInst::FMax: case AtomicRMWInst::FMin: {
                    E x = toE(old, w), y = toE(v, w);
                    E lt = rmw->getOperation() == AtomicRMWInst::FMax ? mkFp2(K::FLt, x, y) : mkFp2(K::FLt, y, x);
                    E r = mkIte(lt, y, x);
                    r = mkIte(mkFp1(K::FIsNan, x, 1), y, r);
                    nv = Val::sym(r); break; }
                default: throw Terminate{ "unsupported", "atomicrmw operation" };
            }
            storeType(st, a, ty, nv);
            for (auto &th : st.threads) th.spinning = false;
            st.fr().regs[ki.dst] = old;
            st.fr().pc++; return;
        }
        case Instruction::AtomicCmpXchg: {
            Type *ty = I->getOperand(1)->getType();
            unsigned w = bits(ty);
            Val a = subst(st, OP(0), 64), cmp = OP(1), nv = OP(2), old = loadType(st, a, ty);
            Val eq = cmpop(K::Eq, old, cmp, w);
            if (!eq.e && !eq.c) { }
            else storeType(st, a, ty, eq.e ? Val::sym(mkIte(eq.e, toE(nv, w), toE(old, w))) : nv);
            if (eq.e || eq.c) for (auto &th : st.threads) th.spinning = false;
            Val r = Val::mkAgg(2);
            r.at(0) = old; r.at(1) = eq;
            st.fr().regs[ki.dst] = r;
            st.fr().pc++; return;
        }
        case Instruction::Fence: f.pc++; return;
        case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(I);
            unsigned n = cb->arg_size();
            std::vector<Val> args(n);
            for (unsigned i = 0; i < n; ++i) if (ki.ops[i] != ~0x7fffffff) args[i] = OP(i);
            if (ki.intrin) {
                CallInfo ci; ci.cb = cb; ci.args = std::move(args);
                Val out;
                if (!intrinsic(st, ki, ci, out)) throw Terminate{ "unsupported", "intrinsic " + ki.callee->name };
                if (ci.pushed) return;
                Frame &f2 = st.fr();
                if (ki.dst >= 0) f2.regs[ki.dst] = std::move(out);
                if (auto *inv = dyn_cast<InvokeInst>(I)) jump(st, inv->getNormalDest());
                else f2.pc++;
                return;
            }
            if (ki.callee) { call(st, cb, ki.callee, std::move(args)); return; }
            if (cb->isInlineAsm()) {
                auto *ia = cast<InlineAsm>(cb->getCalledOperand());
                std::string s = ia->getAsmString();
                if (s.empty() || s.find("pause") != std::string::npos || s.find("yield") != std::string::npos) {
                    if (!s.empty()) t.spinning = st.threads.size() > 1;
                    if (ki.dst >= 0 && !args.empty()) setDst(st, ki, args[0]);
                    f.pc++; return;
                }
                throw Terminate{ "unsupported", "inline assembly: " + s };
            }
            uint64_t target = u64(st, OP(n), 64, "call target");
            KFunc *k = nullptr;
            auto jt = st.jitFuncs.find(target);
            if (jt != st.jitFuncs.end()) k = jt->second;
            else { auto it = faddr.find(target); if (it != faddr.end()) k = it->second; }
            if (!k) { report(st, "memory", target < 4096 ? "call through a null pointer" : "call to a non-function address"); throw Terminate{ "error", "bad call target" }; }
            if (k->F && k->F->isIntrinsic()) throw Terminate{ "unsupported", "indirect intrinsic call" };
            if (k->F && !k->builtin && k->F->arg_size() != n && !k->F->isVarArg()) {
                report(st, "memory", "indirect call with a mismatched signature"); throw Terminate{ "error", "signature mismatch" };
            }
            call(st, cb, k, std::move(args));
            return;
        }
        default: {
            throw Terminate{ "unsupported", std::string("instruction ") + I->getOpcodeName() };
        }
    }
}

void Exec::finishPath(State &st) {
    paths++;
    if (witnesses.size() < cfg.maxWitness) {
        bool uf = false;
        for (E e : st.pc) uf |= e->uf;
        Assignment m;
        if (!uf && getModel(st, m)) {
            Witness w;
            collectInputs(st, m, w.inputs);
            Evaluator ev(m);
            for (auto &o : st.observes) {
                u128 v = o.second.e ? ev.eval(o.second.e) : o.second.c;
                if (!ev.ok) { ev.ok = true; v = ~(u128) 0; }
                w.observes.push_back({ o.first, v });
            }
            witnesses.push_back(std::move(w));
        }
    }
}

// Runs one state until its path ends. Newly forked states go to the worklist.
bool Exec::runState(std::unique_ptr<State> sp) {
    State &st = *sp;
    try {
        uint64_t n = 0;
        for (;;) {
            Thread &t = st.th();
            if (t.done || (t.spinning) || (t.joinOn >= 0 && !st.threads[t.joinOn].done)) {
                if (t.done && st.cur == 0) break; // main thread finished
                // must switch: explore every enabled thread
                std::vector<unsigned> en;
                for (unsigned i = 0; i < st.threads.size(); ++i) {
                    Thread &o = st.threads[i];
                    if (o.done || o.spinning || (o.joinOn >= 0 && !st.threads[o.joinOn].done)) continue;
                    en.push_back(i);
                }
                if (en.empty()) {
                    report(st, "deadlock", "no thread can make progress");
                    throw Terminate{ "error", "deadlock" };
                }
                for (size_t i = 1; i < en.size(); ++i) {
                    auto nst = std::make_unique<State>(st);
                    nst->cur = en[i]; nst->schedDecided = false;
                    forks++;
                    work.push_back(std::move(nst));
                }
                st.cur = en[0]; st.schedDecided = false;
                continue;
            }
            if (t.joinOn >= 0) t.joinOn = -1;
            try { step(st); } catch (Reexecute &) { }
            if ((++n & 0x3ff) == 0) {
                if (nowSec() - startTime > cfg.maxTime) throw Terminate{ "incomplete", "time budget exhausted" };
                if (insts > cfg.maxInsts) throw Terminate{ "incomplete", "instruction budget exhausted" };
            }
        }
        finishPath(st);
        return true;
    } catch (Terminate &e) {
        if (e.kind == "incomplete" || e.kind == "unsupported") {
            incomplete = true;
            incompleteWhy = e.kind + ": " + e.msg + " at " + where(st) + "\n" + backtrace(st);
            if (cfg.verbose) fprintf(stderr, "[%s]\n", incompleteWhy.c_str());
        } else if (e.kind == "done") {
            finishPath(st);
        } else if (e.kind != "assume") {
            if (cfg.verbose) fprintf(stderr, "[path ended: %s %s at %s]\n%s", e.kind.c_str(), e.msg.c_str(), where(st).c_str(), backtrace(st).c_str());
        }
        killed++;
        return false;
    }
}

void Exec::runCtors(const char *setup) {
    // global constructors in priority order, then an optional setup function
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (GlobalVariable *g = mod->getGlobalVariable("llvm.global_ctors")) {
        if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                auto *cs = cast<ConstantStruct>(ca->getOperand(i));
                ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts()) });
            }
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::vector<Function *> fs;
    for (auto &p : ctors) fs.push_back(p.second);
    if (setup && *setup) { if (Function *f = mod->getFunction(setup)) fs.push_back(f); else { fprintf(stderr, "no setup function %s\n", setup); exit(3); } }
    startTime = nowSec();
    for (Function *f : fs) {
        State &st = *initial;
        st.cur = 0;
        st.threads[0].done = false;
        pushFrame(st, getFunc(f), {}, nullptr);
        try {
            while (!st.threads[0].done) step(st);
        } catch (Terminate &e) {
            fprintf(stderr, "initialization failed in %s: %s %s at %s\n%s\n", f->getName().str().c_str(), e.kind.c_str(), e.msg.c_str(), where(st).c_str(), backtrace(st, 40).c_str());
            for (auto &v : violations) fprintf(stderr, "  %s: %s at %s\n%s", v.kind.c_str(), v.msg.c_str(), v.loc.c_str(), v.detail.c_str());
            exit(3);
        }
        if (!work.empty() || !violations.empty()) { fprintf(stderr, "initialization was not deterministic\n"); exit(3); }
    }
    initial->threads[0].done = false;
}

void Exec::runJob() {
    Function *f = mod->getFunction(cfg.entry);
    if (!f) { incomplete = true; incompleteWhy = "no entry function " + cfg.entry; return; }
    startTime = nowSec();
    paths = forks = insts = killed = 0;
    functions.clear(); srcs.clear();
    for (auto &p : kfuncs) p.second->counted = false;
    auto st = std::make_unique<State>(*initial);
    pushFrame(*st, getFunc(f), {}, nullptr);
    work.push_back(std::move(st));
    while (!work.empty()) {
        std::unique_ptr<State> s = std::move(work.back());
        work.pop_back();
        runState(std::move(s));
        if (nowSec() - startTime > cfg.maxTime && !work.empty()) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = "time budget exhausted"; break; }
        if (paths + killed > cfg.maxPaths) { incomplete = true; incompleteWhy = "path budget exhausted"; break; }
        if (violations.size() >= cfg.maxViolations) break;
    }
}
