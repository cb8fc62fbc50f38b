// Latch and SimpleWait: each operation of one thread against every interference other threads may cause.
#include <cassert>
#include <chrono>
#include <cstdlib>
#include "vc_sync.h"
#define private public
#define protected public
#include <sharemind/Latch.h>
#include <sharemind/SimpleWait.h>
#undef private
#undef protected
using u64 = std::uint64_t;
using sharemind::Latch;
using sharemind::SimpleWait;

static u64 c, own;              // the counter, and how many of these counts this thread still has to do
static u64 mine;                // counts done by this thread
static unsigned notes;
static bool active, late, slept;
static u64 (*get)(); static void (*put)(u64); static void * theMutex;
static bool isWait;             // SimpleWait: the counter is 1 until somebody is ready

static void vcs_acquired(void * m) {
    if (!active) return;
    vc_assert(m == theMutex, "the object's own mutex");
    u64 const x = vc_len("others");     // other threads counted down, each at most as often as it may
    vc_assume((x <= c) & (x >= own));
    c = x;
    put(c);
    notes = vcs_notified_all;
}
static void vcs_releasing(void *) {
    if (!active) return;
    u64 const now = get();
    vc_assert((now == c) | (now + 1u == c), "one count per operation at most");
    if (now != c) { ++mine; vc_assert(own > 0, "this thread's own count"); --own; }
    if (now == 0 && c != 0 && vcs_notified_all == notes) late = true;   // a woken waiter may destroy the object at once
    c = now;
}
static void restart() {
    vc_config("unwind", 1);
    vcs_held = 0; vcs_acquisitions = vcs_notified_one = vcs_notified_all = vcs_waits = 0;
    mine = 0; late = false; active = vc_is_symbolic();
}
template <typename C> struct L {
    static Latch<C> * l;
    static u64 get() { return l->m_counter; }
    static void put(u64 v) { l->m_counter = static_cast<C>(v); }
};
template <typename C> Latch<C> * L<C>::l;
static bool latchInv();
static u64 due;     // 1 when the operation counts down
template <typename C> static void latch() {
    unsigned const op = vc_u8("op");
    vc_assume(op < 4);
    due = op < 2;
    C const n = static_cast<C>(vc_u64("n"));
    vc_assume(n > 0);
    Latch<C> l(n);
    L<C>::l = &l; get = &L<C>::get; put = &L<C>::put; theMutex = l.m_mutex.native_handle();
    vc_assert(l.m_counter == n, "the latch starts at n");
    c = static_cast<C>(vc_u64("c")); own = op < 2 ? 1 : 0;
    vc_assume((c <= n) & (c >= own));
    if (!vc_is_symbolic() && (op == 1 || op == 3)) vc_assume(c == own);      // no interference: would wait for ever
    l.m_counter = static_cast<C>(c);
    restart();
    vc_guard(&l.m_counter, sizeof(C), &vcs_held);
    vc_guards(true);
    bool r = false;
    u64 const c0 = c;
    switch (op) {
    case 0: r = l.countDown(); break;
    case 1: l.countDownAndWait(); break;
    case 2: r = l.isReady(); break;
    default: l.wait();
    }
    vc_guards(false); active = false;
    if (!vc_is_symbolic()) {
        if (op == 0) vc_assert(l.m_counter == c0 - 1 && r == (c0 == 1), "countDown counts one down and tells whether it was the last");
        if (op == 2) vc_assert(l.m_counter == c0 && r == (c0 == 0), "isReady tells whether the latch is down");
        if (op == 1) vc_assert(l.m_counter == 0, "counted down");
        return;
    }
    vc_assert(vcs_held == 0, "the lock is given back");
    vc_assert(!late, "whoever counts to zero wakes all waiters before the lock is given back");
    vc_assert(mine == (op < 2), "countDown and countDownAndWait count down once, the others never");
    if (op == 0) vc_assert(r == (c == 0) && vcs_waits == 0, "countDown tells whether it was the last, and does not wait");
    if (op == 2) vc_assert(r == (c == 0) && vcs_waits == 0 && vcs_acquisitions == 1, "isReady tells whether the latch is down");
    if (op == 1 || op == 3) vc_assert(c == 0, "a wait ends only when all counts are done");
    vc_cover("latch");
}
static bool latchInv() {
    return (((get() == c) & (own == 0) & (mine == due)) | ((get() + 1u == c) & (own == 1) & (mine == 0) & (due == 1) & (get() != 0))) &
           (vcs_held == 3) & !late & (notes == vcs_notified_all);
}
VC_PROOF(latch_u32) { vc_hint0(&latchInv); latch<unsigned>(); }
VC_PROOF(latch_u8) { vc_hint0(&latchInv); latch<unsigned char>(); }
VC_PROOF(latch_u64) { vc_hint0(&latchInv); latch<std::uint64_t>(); }

static SimpleWait * w;
static u64 wget() { return w->m_isReady ? 0 : 1; }
static void wput(u64 v) { w->m_isReady = v == 0; }
static bool waitInv() { return (get() == c) & (vcs_held == 3) & !late & (mine == 0); }
struct Stop { void operator()() const noexcept {} };
VC_PROOF(simple_wait) {
    unsigned const op = vc_u8("op");
    vc_assume(op < 3);
    SimpleWait sw;
    w = &sw; get = &wget; put = &wput; theMutex = sw.m_mutex.native_handle();
    vc_assert(!sw.m_isReady, "not ready at first");
    bool const ready = vc_bool("ready");
    sw.m_isReady = ready;
    c = !ready; own = 0;
    if (!vc_is_symbolic() && op > 0) vc_assume(ready);
    vc_hint0(&waitInv);
    restart();
    if (op == 0) own = 0;
    vc_guard(&sw.m_isReady, 1, &vcs_held);
    vc_guards(true);
    bool wasReady = ready;
    switch (op) {
    case 0: active = false; sw.notifyReady(); break;
    case 1: sw.wait(); break;
    default: sw.waitOrStop(Stop(), std::chrono::milliseconds(1));
    }
    vc_guards(false); active = false;
    if (op == 0) {
        vc_assert(sw.m_isReady, "notifyReady makes it ready");
        vc_assert(!vc_is_symbolic() || (vcs_held == 0 && vcs_notified_all >= 1), "and wakes all waiters");
        return;
    }
    (void) wasReady;
    vc_assert(sw.m_isReady, "a wait ends only after notifyReady");
    if (!vc_is_symbolic()) return;
    vc_assert(vcs_held == 0 && c == 0 && mine == 0, "waiting changes nothing");
    vc_cover("wait");
}
struct Thrown {};
static unsigned stops;
struct Throw { void operator()() const { ++stops; throw Thrown(); } };
VC_PROOF(simple_wait_stop) {
    // the stop test runs only after a time-out, and its exception ends the wait with the lock given back
    SimpleWait sw;
    w = &sw; get = &wget; put = &wput; theMutex = sw.m_mutex.native_handle();
    bool const ready = vc_bool("ready");
    sw.m_isReady = ready;
    c = !ready; own = 0; stops = 0;
    vc_hint0(&waitInv);
    restart();
    bool thrown = false;
    try { sw.waitOrStop(Throw(), std::chrono::milliseconds(1)); } catch (Thrown const &) { thrown = true; }
    active = false;
    vc_assert(stops == (thrown ? 1u : 0u), "the stop test's exception is passed on");
    if (!thrown) vc_assert(sw.m_isReady, "a wait ends only after notifyReady or a stop");
    vc_assert(vcs_held == 0 || !vc_is_symbolic(), "the lock is given back");
    vc_cover("stop");
}
