// Symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/ADT/DenseMap.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val;
struct Agg { int rc = 0; std::vector<Val> v; };
struct Val {
    u128 c = 0;
    E e = nullptr;
    Agg *agg = nullptr;
    Val() = default;
    Val(u128 c) : c(c) { }
    Val(const Val &o) : c(o.c), e(o.e), agg(o.agg) { if (agg) agg->rc++; }
    Val(Val &&o) noexcept : c(o.c), e(o.e), agg(o.agg) { o.agg = nullptr; }
    Val &operator=(const Val &o) { if (o.agg) o.agg->rc++; drop(); c = o.c; e = o.e; agg = o.agg; return *this; }
    Val &operator=(Val &&o) noexcept { std::swap(agg, o.agg); c = o.c; e = o.e; return *this; }
    ~Val() { drop(); }
    void drop() { if (agg && --agg->rc == 0) delete agg; agg = nullptr; }
    bool conc() const { return !e && !agg; }
    static Val sym(E e) { Val v; if (e->isConst()) v.c = e->c; else v.e = e; return v; }
    static Val mkAgg(size_t n) { Val v; v.agg = new Agg(); v.agg->rc = 1; v.agg->v.resize(n); return v; }
    Val &at(size_t i) const { return agg->v[i]; }
    size_t size() const { return agg->v.size(); }
    // make the aggregate exclusively owned before modifying it
    void own() { if (agg->rc > 1) { Agg *n = new Agg(); n->rc = 1; n->v = agg->v; agg->rc--; agg = n; } }
};
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum class OK : uint8_t { Global, Const, Heap, Stack, Mmap };
struct Obj {
    int rc = 0;
    uint64_t addr, size;
    OK kind;
    bool freed = false;
    uint8_t how = 0;                 // 0 malloc, 1 new, 2 new[]
    std::vector<uint8_t> c;
    std::vector<E> s;                // empty, or per-byte symbolic overlay
    std::string name;
};
struct ORef {
    Obj *p = nullptr;
    ORef() = default;
    ORef(Obj *p) : p(p) { p->rc++; }
    ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
    ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ORef &operator=(ORef o) noexcept { std::swap(p, o.p); return *this; }
    ~ORef() { if (p && --p->rc == 0) delete p; }
};

struct KInst {
    const llvm::Instruction *I;
    unsigned op;                     // opcode
    int dst = -1;
    unsigned w = 0;                  // scalar result width (0: aggregate / void)
    std::vector<int> ops;            // >= 0 register, < 0: constant ~x
    int64_t gepOff = 0;
    std::vector<std::pair<int, int64_t>> gepIdx;
    std::vector<unsigned> gepW;
    struct KFunc *callee = nullptr;  // direct callee
    int intrin = 0;
};
struct KBlock { unsigned start; };
struct Exec; struct State; struct CallInfo;
typedef std::function<void(Exec &, State &, CallInfo &)> Builtin;
struct KFunc {
    llvm::Function *F = nullptr;
    std::string name;
    bool prepared = false, jit = false, counted = false;
    std::vector<KInst> insts;
    llvm::DenseMap<const llvm::BasicBlock *, unsigned> bb;
    std::vector<Val> consts;
    unsigned nregs = 0;
    const Builtin *builtin = nullptr;
    uint64_t addr = 0;
};
struct Frame {
    KFunc *f;
    std::vector<Val> regs;
    unsigned pc = 0;
    const llvm::BasicBlock *prev = nullptr;
    uint32_t stackMark = 0;
    std::vector<Val> varargs;
};
struct Thread {
    std::vector<Frame> frames;
    std::vector<ORef> stack;         // stack objects, ascending addresses
    uint64_t sp = 0;
    std::vector<uint64_t> caught;
    Val lpExc; uint32_t lpSel = 0;
    bool done = false, spinning = false;
    int joinOn = -1;
    Val ret;
};
struct ExcInfo { uint64_t tinfo, dtor; int handlers = 0; int refs = 1; };
struct Input { std::string name; uint32_t occ; unsigned w; E e; };
struct File { std::vector<Val> data; bool exists = true; bool dir = false; };
struct FD { std::string path; uint64_t pos = 0; bool open = true, app = false; };

struct State {
    std::vector<ORef> globals, heap; // sorted by address
    uint64_t heapNext = 0x7f1000000000ull, mmapNext = 0;
    std::vector<Thread> threads;
    unsigned cur = 0;
    bool schedDecided = false;
    unsigned preempts = 0;
    std::vector<E> pc;
    std::unordered_map<E, bool> known;
    std::unordered_map<E, u128> eqc;
    std::map<std::string, uint32_t> occ;
    std::vector<Input> inputs;
    std::vector<std::pair<std::string, Val>> observes;
    std::unordered_map<uint64_t, ExcInfo> exc;
    std::map<std::pair<const llvm::GlobalValue *, unsigned>, uint64_t> tls;
    std::map<std::string, File> fs;
    std::vector<FD> fds;
    std::map<std::string, std::string> env;
    std::map<uint64_t, KFunc *> jitFuncs;   // dynamic code addresses
    std::vector<std::pair<std::string, uint64_t>> jitPending;
    std::unordered_map<uint64_t, std::vector<uint64_t>> freeList;
    Assignment model; bool modelValid = true;
    uint64_t insts = 0, depth = 0;
    uint64_t mallocCount = 0;
    int64_t failAlloc = -1;                 // fault injection countdown
    bool reuse = false, allowAbort = false;
    uint64_t liveHeap = 0;
    uint32_t faults = 0;
    Thread &th() { return threads[cur]; }
    Frame &fr() { return threads[cur].frames.back(); }
};

struct Terminate { std::string kind, msg; };      // path ends
struct Reexecute { };                             // state changed; run the instruction again

struct CallInfo {
    const llvm::CallBase *cb = nullptr;
    KFunc *target = nullptr;
    std::vector<Val> args;
    Val ret;
    bool pushed = false;    // builtin pushed a frame instead of returning
    bool threw = false;
    unsigned retw() const;
};

struct Violation { std::string kind, msg, loc; std::vector<std::pair<Input, u128>> inputs; std::string detail; };
struct AssertStat { uint64_t checked = 0, proven = 0, violated = 0, unknown = 0, concrete = 0; };
struct Witness { std::vector<std::pair<Input, u128>> inputs; std::vector<std::pair<std::string, u128>> observes; };

struct Config {
    std::string entry;
    std::vector<int64_t> params;
    double maxTime = 300;
    uint64_t maxPaths = 200000, maxInsts = 2000000000ull;
    unsigned maxPreempt = 3, maxWitness = 3, maxViolations = 4;
    bool verbose = false;
    std::string llvmFeatures = "+sse4.2,+fma,+f16c", llvmCpu = "generic";
};

struct Exec {
    llvm::LLVMContext ctx;
    std::unique_ptr<llvm::Module> mod;
    std::vector<std::unique_ptr<llvm::Module>> jitMods;
    const llvm::DataLayout *DL = nullptr;
    Config cfg;
    std::vector<std::unique_ptr<State>> work;
    std::unordered_map<const llvm::Function *, KFunc *> kfuncs;
    std::unordered_map<uint64_t, KFunc *> faddr;
    std::unordered_map<std::string, KFunc *> byName;
    std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
    std::map<std::string, Builtin> builtins;
    std::unordered_map<uint64_t, uint32_t> typeIds;
    uint64_t nextFunc = 0x400000, nextGlobal = 0x10000000;
    std::unique_ptr<State> initial;

    // results
    uint64_t paths = 0, forks = 0, insts = 0, killed = 0;
    bool incomplete = false; std::string incompleteWhy;
    std::map<std::string, AssertStat> asserts;
    std::map<std::string, uint64_t> reaches;
    std::vector<Violation> violations;
    std::vector<Witness> witnesses;
    std::set<std::string> functions, srcs;
    std::map<std::string, uint64_t> violKeys;
    double startTime = 0;
    std::vector<std::string> notes;

    Exec();
    void load(const std::string &path);
    void addModule(llvm::Module &m, State &st, bool jit, const std::map<std::string, uint64_t> &fixed = {});
    void runCtors(const char *setup);
    void runJob();
    bool runState(std::unique_ptr<State> st);     // to completion of that state
    void step(State &st);
    KFunc *getFunc(const llvm::Function *F);
    KFunc *builtinFunc(const std::string &name);
    void prepare(KFunc *f);
    Val evalConst(const llvm::Constant *c, State *st = nullptr);
    // values
    unsigned bits(llvm::Type *t) const;
    unsigned storeSize(llvm::Type *t) const { return (unsigned) DL->getTypeStoreSize(t); }
    const Val &get(Frame &f, const KInst &ki, unsigned i) { int o = ki.ops[i]; return o >= 0 ? f.regs[o] : f.f->consts[~o]; }
    // memory
    Obj *find(State &st, uint64_t addr);
    Obj *writable(State &st, uint64_t addr);
    ORef *findRef(State &st, uint64_t addr);
    uint64_t allocHeap(State &st, uint64_t size, uint64_t align, OK kind, const char *name, uint8_t how = 0, int fill = 0xCD);
    uint64_t allocStack(State &st, uint64_t size, uint64_t align, const char *name);
    void freeHeap(State &st, uint64_t addr, uint8_t how);
    Val readMem(State &st, uint64_t addr, unsigned n, bool check = true);
    void writeMem(State &st, uint64_t addr, unsigned n, const Val &v);
    Val loadType(State &st, const Val &addr, llvm::Type *t, E guard = nullptr);
    void storeType(State &st, const Val &addr, llvm::Type *t, const Val &v, E guard = nullptr);
    Val loadSym(State &st, const Val &addr, unsigned n, E guard);
    void storeSym(State &st, const Val &addr, unsigned n, const Val &v, E guard);
    Obj *resolve(State &st, E addr, unsigned n, E guard, std::vector<uint64_t> &cands);
    void checkAccess(State &st, uint64_t addr, uint64_t n, const char *what);
    std::string readStr(State &st, uint64_t addr);
    uint64_t u64(State &st, const Val &v, unsigned w, const char *what); // concretise (forks)
    // path conditions
    void assume(State &st, E c);
    bool branch(State &st, E c);                  // may fork; returns direction
    int mayBe(State &st, E c);                    // 1 feasible, 0 not, -1 unknown
    E subst(State &st, E e);
    Val subst(State &st, const Val &v, unsigned w) { if (!v.e) return v; return Val::sym(subst(st, v.e)); }
    void fork(State &st, E other);
    bool getModel(State &st, Assignment &out, E extra = nullptr);
    void report(State &st, const std::string &kind, const std::string &msg, E cond = nullptr);
    void collectInputs(State &st, const Assignment &m, std::vector<std::pair<Input, u128>> &out);
    std::string where(State &st);
    std::string backtrace(State &st, unsigned n = 12);
    // control
    void call(State &st, const llvm::CallBase *cb, KFunc *f, std::vector<Val> &&args);
    void pushFrame(State &st, KFunc *f, std::vector<Val> &&args, const llvm::CallBase *cb);
    void doReturn(State &st, const Val &v);
    void jump(State &st, const llvm::BasicBlock *to);
    void unwind(State &st, uint64_t exc, bool popFirst);
    bool excMatch(State &st, uint64_t thrown, uint64_t want);
    void advance(State &st) { st.fr().pc++; }
    void setDst(State &st, const KInst &ki, Val v) { if (ki.dst >= 0) st.fr().regs[ki.dst] = std::move(v); }
    bool intrinsic(State &st, const KInst &ki, CallInfo &ci, Val &out);
    void registerBuiltins();
    void finishPath(State &st);
    // ops
    Val binop(K k, const Val &a, const Val &b, unsigned w);
    Val cmpop(K k, const Val &a, const Val &b, unsigned w);
    Val fbin(K k, const Val &a, const Val &b, unsigned w);
    Val iteV(E c, const Val &t, const Val &f, llvm::Type *ty);
    Val mapLanes(llvm::Type *t, const std::function<Val(unsigned)> &fn);
    Val bitcast(const Val &v, llvm::Type *from, llvm::Type *to);
    Val castOp(unsigned op, const Val &v, llvm::Type *from, llvm::Type *to, bool nneg);
    Val scalarCast(unsigned op, const Val &v, unsigned sw, unsigned dw, llvm::Type *from, llvm::Type *to);
    bool jitCompile(State &st, const std::string &ir, std::string &err);
    uint64_t globalAddr(const std::string &name);
};
extern Exec *g_exec;
double nowSec();
