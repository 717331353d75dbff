// mcsched.h - controlled scheduler and C++ memory model for code compiled with -fsanitize=thread
//
// The code under test (and the harness) is compiled with -fsanitize=thread and linked with tsanrt.cpp instead of
// the sanitizer's runtime.  Every atomic operation and every pthread lock operation becomes a scheduling point of
// cooperative threads whose interleaving is chosen by mc::choose.  Atomics follow a view based operational model
// of the C++ memory model: a load may read any message of its location that its thread's view (and, for seq_cst,
// the last seq_cst store of that location) still allows, so weak orders are really weak, independent of the host.  Plain accesses
// are checked for data races with vector clocks.
#pragma once
#include "mc.h"

// the sanitizer's interface has lost whether a compare-exchange was weak; the library headers reach the model directly
// (this header has to come before anything that includes <atomic>)
namespace mc { bool cas(void* p, int n, void* expected, void const* desired, bool weak, int order, int failure_order); }
template<class P, class E, class D> inline __attribute__((always_inline)) bool mc_cas_ref(P* p, E* e, D* d, bool w, int o, int fo) { return mc::cas((void*)p, int(sizeof(*p)), (void*)e, (void const*)d, w, o, fo); }
template<class P, class E, class D> inline __attribute__((always_inline)) bool mc_cas_val(P* p, E* e, D d, bool w, int o, int fo) { P v = P(d); return mc::cas((void*)p, int(sizeof(*p)), (void*)e, (void const*)&v, w, o, fo); }
#define __atomic_compare_exchange(...) mc_cas_ref(__VA_ARGS__)
#define __atomic_compare_exchange_n(...) mc_cas_val(__VA_ARGS__)
#include <atomic>
#include <functional>
#include <vector>

namespace mc
{
    // runs the threads under every interleaving with at most `preemptions` forced switches (-1: no limit)
    void run_threads(std::vector<std::function<void()>> const& threads, int preemptions = -1, int spurious = 1);
    int  self();                      // index of the running thread
    u64  stamp();                     // a logical time, increasing with every event of the execution
    void modelled(bool on);           // outside run_threads: route pthread calls of this thread to the model as well
    u64  sched_points();              // scheduling points of the last run
    bool blocked_in(int thread);      // inside run_threads: is the thread waiting for a lock
}
