#include "jit_setup.h"
extern "C" __attribute__((used)) void harness_setup() {
    jit_set_log_level_stderr(LogLevel::Error);
    jit_init(1u << (uint32_t) JitBackend::LLVM);
    if (!jit_has_backend(JitBackend::LLVM)) sym_assert(0, "LLVM backend initialization");
}
