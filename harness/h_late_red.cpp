#include "h_red.cpp"
#include "late.h"
LATE(t_bred) LATE(t_bpre) LATE(t_lred) LATE(t_compress) LATE(t_mkperm) LATE(t_bulk) LATE(t_any) LATE(t_dot) LATE(t_undef)
