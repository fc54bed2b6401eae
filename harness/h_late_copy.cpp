#include "h_copy.cpp"
#include "late.h"
LATE(t_copy) LATE(t_hist)
