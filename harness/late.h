// Variants of the harnesses in which asynchronous work runs as late as possible:
// only when somebody waits for it or for work that depends on it.
extern "C" { extern uint32_t nt_defer, nt_pending; }
#define LATE(e) ENTRY e##_late() { nt_defer = 1; e(); jit_sync_thread(); }
