#include "h_frz.cpp"
#include "late.h"
LATE(t_gather) LATE(t_scatter) LATE(t_reduce) LATE(t_inc) LATE(t_exch) LATE(t_loop) LATE(t_cond) LATE(t_call) LATE(t_frz)
