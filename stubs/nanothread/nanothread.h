// Minimal stand-in for the nanothread API used by drjit-core (the submodule is
// not available in this checkout). Tasks run synchronously at submission,
// work units in an order/with thread ids chosen by the harness.
#pragma once
#include <cstdint>
#include <cstddef>
struct Task; struct Pool;
#define NANOTHREAD_AUTO ((uint32_t) -1)
extern "C" {
Pool *pool_create(uint32_t size = NANOTHREAD_AUTO, int ftz = 1);
void pool_destroy(Pool *pool = nullptr);
uint32_t pool_size(Pool *pool = nullptr);
void pool_set_size(Pool *pool, uint32_t size);
uint32_t pool_thread_id();
void pool_set_profile(bool value);
bool pool_profile();
Task *task_submit_dep(Pool *pool, const Task * const *parent,
                      uint32_t parent_count, uint32_t size = 1,
                      void (*func)(uint32_t, void *) = nullptr,
                      void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr,
                      int async = 0, int profile = 0);
void task_retain(Task *task);
void task_release(Task *task);
void task_wait(Task *task);
void task_wait_and_release(Task *task);
int task_query(Task *task);
double task_time(Task *task);
double task_time_rel(Task *task_1, Task *task_2);
}
namespace drjit {
template <typename Int> struct blocked_range {
    blocked_range(Int b, Int e, Int bs = 1) : m_b(b), m_e(e), m_bs(bs) { }
    struct iterator {
        Int v; iterator(Int v) : v(v) { }
        Int operator*() const { return v; }
        void operator++() { ++v; }
        bool operator==(const iterator &o) const { return v == o.v; }
        bool operator!=(const iterator &o) const { return v != o.v; }
    };
    Int begin() const { return m_b; }
    Int end() const { return m_e; }
    uint32_t blocks() const { return (uint32_t) ((m_e - m_b + m_bs - 1) / m_bs); }
    Int block_size() const { return m_bs; }
    Int m_b, m_e, m_bs;
};
template <typename Int, typename Func>
void parallel_for(const blocked_range<Int> &r, Func &&f, Pool * = nullptr) { f(r); }
}
