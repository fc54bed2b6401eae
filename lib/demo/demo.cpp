#include <drjit-core/jit.h>
#include <stdio.h>
int main() { jit_set_log_level_stderr(LogLevel::Error); jit_init(1u << (uint32_t) JitBackend::LLVM); if (!jit_has_backend(JitBackend::LLVM)) { puts("no LLVM"); return 0; }
  float x[3]={1,2,3}; uint32_t a=jit_var_mem_copy(JitBackend::LLVM, VarType::Float32, x, 3, 1), b=jit_var_add(a,a); printf("%s\n", jit_var_str(b)); return 0; }
