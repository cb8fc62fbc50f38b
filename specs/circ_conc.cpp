// CircBufferSCSP with its locking: one producer and one consumer thread. Each side is verified against every
// interference the other side may cause while the lock is free.
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstring>
#include <limits>
#include <memory>
#include "vc_sync.h"
#define private public
#define protected public
#include <sharemind/CircBufferSCSP.h>
#undef private
#undef protected
using u64 = std::uint64_t;
using u8 = unsigned char;
using Buf = sharemind::CircBufferSCSP<u8>;

static Buf * b;
static u64 n, o, d;         // capacity; this side's offset; number of elements queued (as visible to the other side)
static u64 k;               // an arbitrary slot
static std::uint8_t kown, nobody = 0, all = 3;
static bool producer, active;
enum Mode { COUNTS, SLOTS, CONTENT };   // what one proof follows besides the counters: nothing, who owns slot k, or element j
static Mode mode;
static u64 moved;           // elements this side has published / consumed so far
static u8 const * src; static u8 * dst;
static u64 s, j; static u8 jv;          // elements wanted; an arbitrary one of them, its value
static u64 first;                       // what was possible at the start
static bool changedUnnotified; static unsigned notes;

static u64 wrap(u64 i) { return i < n - o ? o + i : i - (n - o); }      // the slot i <= n places after this side's offset, in [0, n]
static u64 norm(u64 x) { return x == n ? 0 : x; }
static bool queued(u64 slot) {
    if (producer) return (slot < o ? o - slot : o + (n - slot)) <= d;   // the d slots before the write offset
    return (slot >= o ? slot - o : slot + (n - o)) < d;                 // the d slots from the read offset on
}
static bool jqueued() { return j >= moved && j - moved < d; }
static void own() {
    if (mode != SLOTS) return;
    // the producer may write free slots, the consumer may read queued ones
    if (producer) kown = queued(k) ? 0 : 3; else kown = queued(k) ? 1 : 0;
}
static u64 & avail() { return b->m_locking.m_dataAvailable; }

static void vcs_acquired(void * m) {
    if (!active) return;
    vc_assert(m == static_cast<void *>(&b->m_locking.m_dataAvailableMutex), "the buffer's own mutex");
    // the other side acted any number of times since
    u64 const x = vc_len("other");
    if (producer) {
        vc_assume(x <= d);
        d = x;
    } else {
        vc_assume(x >= d && x <= n);
        bool const was = jqueued();
        d = x;
        if (mode == CONTENT && !was && jqueued()) { u8 * const p = b->arrayStart() + wrap(j - moved); vc_havoc(p, 1, "produced"); jv = *p; }
    }
    avail() = d;
    own();
    notes = vcs_notified_one + vcs_notified_all;
}
static void vcs_releasing(void *) {
    if (!active) return;
    u64 const now = avail();
    if (now != d && vcs_notified_one + vcs_notified_all == notes)
        changedUnnotified = true;
    if (producer) {
        vc_assert(now >= d && now <= n, "the producer only adds, and never more than fits");
        u64 const more = now - d;
        // what becomes visible to the consumer now
        if (mode == CONTENT && j >= moved && j - moved < more)
            vc_assert(b->arrayStart()[wrap(j - moved)] == src[j], "published elements are the input, in order, complete before they become visible");
        d = now; moved += more; o = norm(wrap(more));
    } else {
        vc_assert(now <= d, "the consumer only removes what is there");
        u64 const less = d - now;
        if (mode == CONTENT && j >= moved && j - moved < less)
            vc_assert(j < s && dst[j] == jv, "elements are copied out, in order, before their slots are given back");
        d = now; moved += less; o = norm(wrap(less));
    }
    own();
}
static void start(bool prod, Mode m) {
    vc_config("unwind", 1); vc_config("hints", 2);
    mode = m;
    producer = prod; active = false;
    n = vc_len("n");
    vc_assume(n >= 1);
    alignas(Buf) static unsigned char mem[sizeof(Buf)];
    b = new (mem) Buf(n);
    o = vc_len("o"); d = vc_len("d");
    vc_assume(o < n && d <= n);
    b->m_readOffset = b->m_writeOffset = o; avail() = d;    // the other side's offset is not accessed (see the guards)
    vc_havoc(b->arrayStart(), n, "content");
    k = vc_ghost_u64(); j = vc_ghost_u64();
    vc_assume(k < n);
    moved = 0; src = nullptr; dst = nullptr; changedUnnotified = false;
    vcs_held = 0;
    if (mode == CONTENT && j < d) jv = b->arrayStart()[wrap(j)];
    own();
    // ownership: the counter belongs to the lock, each offset to one side, each slot to the side whose turn it is
    vc_guard(&avail(), sizeof(u64), &vcs_held);
    vc_guard(&b->m_readOffset, sizeof(u64), prod ? &nobody : &all);
    vc_guard(&b->m_writeOffset, sizeof(u64), prod ? &all : &nobody);
    if (m == SLOTS) vc_guard(b->arrayStart() + k, 1, &kown);
    active = true;
    vc_guards(true);
}
static void stop(u64 const nativeMoved = 0) {
    vc_guards(false);
    active = false;
    if (!vc_is_symbolic()) {    // no interference
        moved = nativeMoved;
        if (producer) {
            if (src && mode == CONTENT && j < moved) vc_assert(b->arrayStart()[wrap(j)] == src[j], "published elements are the input, in order, complete before they become visible");
            d += moved; o = norm(wrap(moved));
        } else {
            if (dst && mode == CONTENT && j < moved) vc_assert(dst[j] == jv, "elements are copied out, in order, before their slots are given back");
            d -= moved; o = norm(wrap(moved));
        }
        vc_assert(avail() == d, "the counter follows");
        return;
    }
    vc_assert(vcs_held == 0, "the lock is given back");
    vc_assert(!changedUnnotified, "every change is notified");
}
VC_PROOF(marks) {
    bool const prod = vc_bool("producer");
    start(prod, COUNTS);
    u64 const d0 = d;
    s = vc_len("s");
    vc_assume(s <= (prod ? n - d : d));
    if (prod) {
        u64 const space = b->haveWritten(s);
        stop(s);
        vc_assert(moved == s && space == n - d && d <= d0 + s, "haveWritten publishes s elements and returns the space then");
    } else {
        u64 const left = b->haveRead(s);
        stop(s);
        vc_assert(moved == s && left == d && left >= d0 - s, "haveRead releases s elements and returns how many were left");
    }
    vc_assert(vcs_acquisitions == 1 || !vc_is_symbolic(), "in one step");
    vc_cover("marks");
}
VC_PROOF(query) {
    bool const prod = vc_bool("producer");
    start(prod, COUNTS);
    u64 const x = vc_bool("space") ? n - b->spaceAvailable() : b->dataAvailable();
    stop();
    vc_assert(x == d && moved == 0, "queries give the current state and change nothing");
    vc_cover("query");
}
static bool inv() { return (d == avail()) & (d <= n) & (vcs_held == 3) & (moved == 0) & (!changedUnnotified) & (o < n); }
struct Stop { void operator()() const { if (vc_is_symbolic()) vc_assert(vcs_held == 3, "the stop test runs with the lock held"); } };
static void wait(bool prod, bool timed) {
    start(prod, COUNTS);
    if (!vc_is_symbolic()) { vc_assume(prod ? d < n : d > 0); }
    vc_hint0(&inv);
    u64 x;
    if (prod) x = timed ? b->waitSpaceAvailable(Stop(), std::chrono::milliseconds(1)) : b->waitSpaceAvailable();
    else x = timed ? b->waitDataAvailable(Stop(), std::chrono::milliseconds(1)) : b->waitDataAvailable();
    stop();
    vc_assert(x == (prod ? n - d : d) && x > 0, "a wait ends only when there is something to do, and returns how much");
    vc_assert(moved == 0, "waiting changes nothing");
    vc_cover("wait");
}
VC_PROOF(wait_space) { wait(true, false); }
VC_PROOF(wait_data) { wait(false, false); }
VC_PROOF(wait_space_timed) { wait(true, true); }
VC_PROOF(wait_data_timed) { wait(false, true); }
