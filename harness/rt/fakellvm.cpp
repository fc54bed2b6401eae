// Stand-in for the LLVM C API inside the symbolic engine. Kernel IR text is
// parsed by the engine; code/data "sections" are requested from the memory
// manager callbacks that drjit-core registers, and each emitted function is a
// 32-byte stub {magic, engine function id} that drjit-core copies around like
// machine code.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef int LLVMBool;
extern "C" {
uint64_t sym_jit_parse(const char *text, size_t n, char *err, size_t errn);
uint64_t sym_jit_sym(uint64_t mod, const char *name);
void sym_jit_delta(uint64_t fn, int64_t delta);
char *sym_jit_features(void);
}
typedef uint8_t *(*CodeCb)(void *, uintptr_t, unsigned, unsigned, const char *);
typedef uint8_t *(*DataCb)(void *, uintptr_t, unsigned, unsigned, const char *, LLVMBool);
struct Buf { const char *p; size_t n; };
struct Mod { uint64_t id; uint8_t *data; uint8_t *code; size_t used; };
static CodeCb g_code; static DataCb g_data; static LLVMBool (*g_fin)(void *, char **);
static void *(*g_ctx)(void *); static void *g_opaque; static Mod *g_cur;
static void *(*g_creator)(void *, void *, const char *);
#define API extern "C" __attribute__((used))
API void fake_LLVMLinkInMCJIT() { }
API void fake_LLVMInitializeX86AsmPrinter() { }
API void fake_LLVMInitializeX86Disassembler() { }
API void fake_LLVMInitializeX86Target() { }
API void fake_LLVMInitializeX86TargetInfo() { }
API void fake_LLVMInitializeX86TargetMC() { }
API char *fake_LLVMCreateMessage(const char *s) { return strdup(s); }
API void fake_LLVMDisposeMessage(char *s) { free(s); }
API char *fake_LLVMGetDefaultTargetTriple() { return strdup("x86_64-pc-linux-gnu"); }
API char *fake_LLVMGetHostCPUName() { return strdup("x86-64"); }
API char *fake_LLVMGetHostCPUFeatures() { return sym_jit_features(); }
API void *fake_LLVMGetGlobalContext() { return (void *) 0x100; }
API void *fake_LLVMCreateDisasm(const char *, void *, int, void *, void *) { return nullptr; }
API void fake_LLVMDisasmDispose(void *) { }
API int fake_LLVMSetDisasmOptions(void *, uint64_t) { return 1; }
API void fake_LLVMAddModule(void *, void *) { }
API void fake_LLVMDisposeModule(void *) { }
API void *fake_LLVMCreateMemoryBufferWithMemoryRange(const char *p, size_t n, const char *, LLVMBool) {
    Buf *b = (Buf *) malloc(sizeof(Buf)); b->p = p; b->n = n; return b;
}
API LLVMBool fake_LLVMParseIRInContext(void *, void *buf, void **mod, char **err) {
    Buf *b = (Buf *) buf;
    char msg[1024]; msg[0] = 0;
    uint64_t id = sym_jit_parse(b->p, b->n, msg, sizeof(msg));
    free(b);
    if (!id) { *err = strdup(msg); return 1; }
    Mod *m = (Mod *) malloc(sizeof(Mod)); m->id = id; m->data = m->code = nullptr; m->used = 0;
    *mod = m; return 0;
}
API char *fake_LLVMPrintModuleToString(void *) { return strdup(""); }
API uint64_t fake_LLVMGetGlobalValueAddress(void *, const char *) { return 0; }
API LLVMBool fake_LLVMRemoveModule(void *, void *, void **, char **) { return 0; }
API size_t fake_LLVMDisasmInstruction(void *, uint8_t *, uint64_t, uint64_t, char *, size_t) { return 0; }
API bool fake_LLVMVerifyModule(void *, int, char **msg) { *msg = strdup(""); return false; }
API void fake_LLVMGetVersion(unsigned *a, unsigned *b, unsigned *c) { *a = 17; *b = 0; *c = 6; }
API void fake_LLVMDisposeTargetMachine(void *) { }
API void *fake_LLVMCreatePassBuilderOptions() { return (void *) 0x200; }
API void fake_LLVMPassBuilderOptionsSetLoopVectorization(void *, LLVMBool) { }
API void fake_LLVMPassBuilderOptionsSetLoopUnrolling(void *, LLVMBool) { }
API void fake_LLVMPassBuilderOptionsSetSLPVectorization(void *, LLVMBool) { }
API void fake_LLVMDisposePassBuilderOptions(void *) { }
API void *fake_LLVMRunPasses(void *, const char *, void *, void *) { return nullptr; }
API LLVMBool fake_LLVMGetTargetFromTriple(const char *, void **t, char **) { *t = (void *) 0x300; return 0; }
API void *fake_LLVMCreateTargetMachine(void *, const char *, const char *, const char *, int, int, int) { return (void *) 0x400; }
API void *fake_LLVMOrcCreateNewThreadSafeContext() { return (void *) 0x500; }
API void fake_LLVMOrcDisposeThreadSafeContext(void *) { }
API void *fake_LLVMOrcCreateNewThreadSafeModule(void *m, void *) { return m; }
API void *fake_LLVMOrcJITTargetMachineBuilderCreateFromTargetMachine(void *) { return (void *) 0x600; }
API void *fake_LLVMOrcCreateLLJITBuilder() { return (void *) 0x700; }
API void fake_LLVMOrcLLJITBuilderSetJITTargetMachineBuilder(void *, void *) { }
API void fake_LLVMOrcLLJITBuilderSetObjectLinkingLayerCreator(void *, void *(*c)(void *, void *, const char *), void *) { g_creator = c; }
API void *fake_LLVMOrcCreateLLJIT(void **out, void *) { *out = (void *) 0x800; if (g_creator) g_creator(nullptr, (void *) 0x900, "x86_64"); return nullptr; }
API void *fake_LLVMOrcCreateRTDyldObjectLinkingLayerWithMCJITMemoryManagerLikeCallbacks(
    void *, void *op, void *(*ctx)(void *), void (*)(void *), CodeCb code, DataCb data, LLVMBool (*fin)(void *, char **), void (*)(void *)) {
    g_opaque = op; g_ctx = ctx; g_code = code; g_data = data; g_fin = fin;
    return (void *) 0xa00;
}
API char *fake_LLVMGetErrorMessage(void *) { return strdup("error"); }
API void *fake_LLVMOrcLLJITAddLLVMIRModule(void *, void *, void *m) { g_cur = (Mod *) m; return nullptr; }
API void *fake_LLVMOrcLLJITGetMainJITDylib(void *) { return (void *) 0xb00; }
API void *fake_LLVMOrcDisposeLLJIT(void *) { return nullptr; }
API void *fake_LLVMOrcJITDylibClear(void *) { if (g_cur) { free(g_cur); g_cur = nullptr; } return nullptr; }
static const unsigned STUB = 32, MAXFN = 32;
API void *fake_LLVMOrcLLJITLookup(void *, uint64_t *out, const char *name) {
    Mod *m = g_cur;
    if (!m->code) {
        void *c = g_ctx ? g_ctx(nullptr) : nullptr;
        m->code = g_code(c, STUB * MAXFN, 16, 1, ".text");
        if (sym_jit_sym(m->id, "callables")) {
            m->data = g_data(c, 8, 8, 2, ".bss", 0);
            if (m->data) memset(m->data, 0, 8);
        }
        char *e = nullptr;
        if (g_fin) g_fin(c, &e);
        if (!m->code) return (void *) 0xc00;
        memset(m->code, 0, STUB * MAXFN);
    }
    uint64_t s = sym_jit_sym(m->id, name);
    if (s == 0) return (void *) 0xc00;
    if (s == 1) { *out = (uint64_t) m->data; return nullptr; }
    uint8_t *p = m->code + m->used * STUB;
    m->used++;
    if (m->used > MAXFN) abort();
    uint64_t w[2] = { 0x464e5554494a5244ull, s - 2 };
    memcpy(p, w, 16);
    if (m->data) sym_jit_delta(s, m->data - p);
    *out = (uint64_t) p;
    return nullptr;
}
