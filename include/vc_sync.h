// Contracts of mutexes and condition variables, from the point of view of one thread: taking a lock is where the
// other threads get to act (vcs_acquired), giving it back is where they get to see the result (vcs_releasing).
// The specification defines these two. Native runs use the real library, without interference.
#ifndef VC_SYNC_H
#define VC_SYNC_H
#include "vc.h"
#include <condition_variable>
#include <mutex>
static void vcs_acquired(void * mutex);
static void vcs_releasing(void * mutex);
static std::uint8_t vcs_held = 0;       // 3 while this thread holds the (one) mutex of interest
static unsigned vcs_acquisitions = 0, vcs_notified_one = 0, vcs_notified_all = 0, vcs_waits = 0;
#ifndef VC_NATIVE
extern "C" {
int vc_contract_pthread_mutex_lock(void * m) {
    vc_guards(false);
    vc_assert(vcs_held == 0, "no thread locks a mutex it already holds");
    vcs_held = 3;
    ++vcs_acquisitions;
    vcs_acquired(m);
    vc_guards(true);
    return 0;
}
int vc_contract_pthread_mutex_unlock(void * m) {
    vc_guards(false);
    vc_assert(vcs_held != 0, "only a held mutex is unlocked");
    vcs_releasing(m);
    vcs_held = 0;
    vc_guards(true);
    return 0;
}
std::int64_t vc_contract__ZNSt6chrono3_V212steady_clock3nowEv() { return static_cast<std::int64_t>(vc_len("clock")); }
std::int64_t vc_contract__ZNSt6chrono3_V212system_clock3nowEv() { return static_cast<std::int64_t>(vc_len("clock")); }
void vc_contract__ZNSt18condition_variableC1Ev(void *) {}
void vc_contract__ZNSt18condition_variableC2Ev(void *) {}
void vc_contract__ZNSt18condition_variableD1Ev(void *) {}
void vc_contract__ZNSt18condition_variableD2Ev(void *) {}
void vc_contract__ZNSt18condition_variable10notify_oneEv(void *) { ++vcs_notified_one; }
void vc_contract__ZNSt18condition_variable10notify_allEv(void *) { ++vcs_notified_all; }
static void vcs_wait(void * m) {
    vc_guards(false);
    vc_assert(vcs_held != 0, "a condition wait holds its mutex");
    vcs_releasing(m);
    vcs_held = 3;
    ++vcs_waits;
    vcs_acquired(m);
    vc_guards(true);
}
void vc_contract__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, std::unique_lock<std::mutex> * l) {
    vc_assert(l->owns_lock(), "a condition wait holds its mutex");
    vcs_wait(l->mutex());
}
int vc_contract_pthread_cond_clockwait(void *, void * m, int, void *) { vcs_wait(m); return vc_bool("timeout") ? 110 : 0; }
int vc_contract_pthread_cond_timedwait(void *, void * m, void *) { vcs_wait(m); return vc_bool("timeout") ? 110 : 0; }
}
#endif
#endif
