// nanothread stand-in: every task runs to completion inside
// task_submit_dep(). The harness may override the number of workers and the
// order in which work units execute, or have tasks run as late as possible.
#include "nanothread.h"
#include <stdlib.h>
struct Task {
    uint32_t refs, size, n_parents; bool done, own;
    void (*func)(uint32_t, void *); void *payload; void (*deleter)(void *);
    Task **parents;
};
extern "C" {
uint32_t nt_pool_size = 4;
uint32_t nt_thread_id = 0;
uint32_t nt_live_tasks = 0;      // tasks created minus tasks destroyed
uint32_t nt_ids = 0;             // nonzero: work unit i runs on thread (i * nt_ids) mod pool size
uint32_t nt_order = 0;           // 0: ascending, 1: descending, 2: odd before even
uint32_t nt_defer = 0;           // 1: a task only runs when somebody waits for it or for a task depending on it
uint32_t nt_pending = 0;         // tasks that have not run yet
Pool *pool_create(uint32_t, int) { return nullptr; }
void pool_destroy(Pool *) { }
uint32_t pool_size(Pool *) { return nt_pool_size; }
void pool_set_size(Pool *, uint32_t size) { nt_pool_size = size; }
uint32_t pool_thread_id() { return nt_thread_id; }
void pool_set_profile(bool) { }
bool pool_profile() { return false; }
static void nt_unref(Task *t) { if (--t->refs == 0) { nt_live_tasks--; free(t); } }
static void nt_run(Task *t) {
    if (t->done) return;
    for (uint32_t i = t->n_parents; i-- > 0;) { nt_run(t->parents[i]); nt_unref(t->parents[i]); }
    free(t->parents); t->parents = nullptr; t->n_parents = 0;
    if (t->func && t->size) {
        uint32_t id = nt_thread_id, size = t->size;
        auto run = [&](uint32_t i) { if (nt_ids) nt_thread_id = (i * nt_ids) % nt_pool_size; t->func(i, t->payload); };
        if (nt_order == 0) { for (uint32_t i = 0; i < size; ++i) run(i); }
        else if (nt_order == 1) { for (uint32_t i = size; i-- > 0; ) run(i); }
        else {
            for (uint32_t i = 1; i < size; i += 2) run(i);
            for (uint32_t i = 0; i < size; i += 2) run(i);
        }
        nt_thread_id = id;
    }
    if (t->own) free(t->payload);
    if (t->deleter) t->deleter(t->payload);
    t->done = true; nt_pending--;
    nt_unref(t);
}
Task *task_submit_dep(Pool *, const Task * const *parents, uint32_t n_parents, uint32_t size,
                      void (*func)(uint32_t, void *), void *payload, uint32_t payload_size,
                      void (*deleter)(void *), int, int) {
    Task *t = (Task *) malloc(sizeof(Task));
    t->refs = 2; t->size = size; t->done = false; t->own = false; t->func = func; t->payload = payload; t->deleter = deleter; t->n_parents = 0; t->parents = nullptr; // one reference until it has run
    nt_live_tasks++; nt_pending++;
    // Like the real library, small payloads without deleter are copied.
    if (func && size && !deleter && payload_size) {
        char *copy = (char *) malloc(payload_size);
        for (uint32_t i = 0; i < payload_size; ++i) copy[i] = ((char *) payload)[i];
        t->payload = copy; t->own = true;
    }
    if (nt_defer && n_parents) {
        t->parents = (Task **) malloc(n_parents * sizeof(Task *));
        for (uint32_t i = 0; i < n_parents; ++i) if (parents[i]) { Task *q = (Task *) parents[i]; q->refs++; t->parents[t->n_parents++] = q; }
    }
    if (!nt_defer) nt_run(t);
    return t;
}
void task_retain(Task *t) { if (t) t->refs++; }
void task_release(Task *t) { if (t) nt_unref(t); }
void task_wait(Task *t) { if (t) nt_run(t); }
void task_wait_and_release(Task *t) { if (t) { nt_run(t); nt_unref(t); } }
int task_query(Task *t) { return !t || t->done; }
double task_time(Task *) { return 0; }
double task_time_rel(Task *, Task *) { return 0; }
}
