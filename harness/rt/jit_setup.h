// Common initialization: LLVM backend, vector width 4, no disk cache.
#pragma once
#include "sym.h"
#include <drjit-core/jit.h>
