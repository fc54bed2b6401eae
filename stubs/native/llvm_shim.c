// Pins the host CPU that LLVM reports so that native replays use the same
// vector width (4 lanes) and instruction set as the symbolic run.
#include <string.h>
#include <stdlib.h>
char *LLVMGetHostCPUName(void) { return strdup("x86-64"); }
char *LLVMGetHostCPUFeatures(void) { return strdup("+sse4.2,+fma,+f16c"); }
