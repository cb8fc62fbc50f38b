// CircBufferSCSP: the transfer loops of both sides, over a locking which is its contract (that CircBufferScspLocking
// keeps this contract is proved in circ_conc.cpp): whenever a side takes the lock, the other side may have
// acted any number of times since, and what a side does becomes visible to the other at once.
#include <algorithm>
#include <cassert>
#include <cstring>
#include <limits>
#include <memory>
#include "vc.h"
#define private public
#define protected public
#include <sharemind/CircBufferSCSP.h>
#undef private
#undef protected
using u64 = std::uint64_t;
using u8 = unsigned char;

static u8 * store;
static u64 n, o, d;         // capacity; this side's offset; number of elements queued (as visible to the other side)
static u64 k;               // an arbitrary slot
static std::uint8_t kown, nobody = 0;
static bool producer;
enum Mode { COUNTS, SLOTS, CONTENT };   // what one proof follows: only the counters, who owns slot k, or element j
static Mode mode;
static u64 moved;           // elements this side has published / consumed so far
static u8 const * src; static u8 * dst;
static u64 s, j; static u8 jv; static u64 jslot; // elements wanted; an arbitrary one of them, its value and the slot it passes through
static u64 first;                       // what was possible at the start

static u64 wrap(u64 i) { return vc_ite(i < n - o, o + i, i - (n - o)); }    // the slot i <= n places after this side's offset, in [0, n]
static u64 norm(u64 x) { return vc_ite(x == n, 0u, x); }
static u64 behind(u64 slot) { return vc_ite(slot < o, o - slot, o + (n - slot)); }      // places from slot up to this side's offset, in [1, n]
static u64 ahead(u64 slot) { return vc_ite(slot >= o, slot - o, slot + (n - o)); }      // places from this side's offset to the slot, in [0, n)
static bool queued(u64 slot) { return producer ? behind(slot) <= d : ahead(slot) < d; }
static bool jqueued() { return (j >= moved) & (j - moved < d); }
static std::uint8_t owner() {
    // the producer may write free slots, the consumer may read queued ones
    return static_cast<std::uint8_t>(producer ? vc_ite(queued(k), 0u, 3u) : vc_ite(queued(k), 1u, 0u));
}
static void own() { if (mode == SLOTS) kown = owner(); }

// the other side may have acted
static void rely() {
    u64 x = vc_len("other");
    if (producer) {
        if (!vc_is_symbolic()) x %= d + 1u;
        vc_assume(x <= d);
        d = x;
    } else {
        if (!vc_is_symbolic()) x = d + (x - d) % (n - d + 1u);
        vc_assume((x >= d) & (x <= n));
        bool const was = jqueued();
        d = x;
        if (mode == CONTENT && !was && jqueued()) {
            if (!vc_is_symbolic()) jslot = wrap(j - moved);
            vc_assume(wrap(j - moved) == jslot);    // happens once: jslot is just the name of that slot
            store[jslot] = jv;
        }
    }
    own();
}
struct Locking {
    static constexpr bool providesWait = false;
    std::size_t dataAvailable() const noexcept { rely(); return d; }
    std::size_t increaseDataAvailable(std::size_t const more) noexcept {
        vc_assert(producer, "only the producer adds");
        rely();
        vc_assert(more <= n - d, "the producer adds no more than fits");
        if (mode == CONTENT && src && j >= moved && j - moved < more)
            vc_assert(store[wrap(j - moved)] == src[j], "published elements are the input, in order, complete before they become visible");
        o = norm(wrap(more)); d += more; moved += more;
        own();
        return d;
    }
    std::size_t decreaseDataAvailable(std::size_t const less) noexcept {
        vc_assert(!producer, "only the consumer removes");
        rely();
        vc_assert(less <= d, "the consumer removes no more than there is");
        if (mode == CONTENT && dst && j >= moved && j - moved < less)
            vc_assert(j < s && dst[j] == jv, "elements are copied out, in order, before their slots are given back");
        o = norm(wrap(less)); d -= less; moved += less;
        own();
        return d;
    }
};
using Buf = sharemind::CircBufferSCSP<u8, Locking>;
static Buf * b;

static void start(bool prod, Mode m) {
    vc_config("unwind", 0); vc_config("hints", 2); vc_config("merge", 1);
    producer = prod; mode = m;
    n = vc_len("n");
    vc_assume(n >= 1);
    alignas(Buf) static unsigned char mem[sizeof(Buf)];
    b = new (mem) Buf(n);
    store = b->arrayStart();
    o = vc_len("o"); d = vc_len("d");
    if (!vc_is_symbolic()) { o %= n; d %= n + 1u; }
    vc_assume((o < n) & (d <= n));
    b->m_readOffset = b->m_writeOffset = o;     // the other side's offset is not accessed (see the guards)
    vc_havoc(store, n, "content");
    k = vc_ghost_u64(); j = vc_ghost_u64();
    vc_assume(k < n);
    moved = 0; src = nullptr; dst = nullptr;
    jv = vc_u8("element");
    jslot = vc_len("slot");
    if (mode == CONTENT && j < d) {
        if (!vc_is_symbolic()) jslot = wrap(j);
        vc_assume(wrap(j) == jslot);
        store[jslot] = jv;
    }
    own();
    // ownership: each offset belongs to one side, each slot to the side whose turn it is
    if (m == COUNTS) vc_guard(prod ? &b->m_readOffset : &b->m_writeOffset, sizeof(u64), &nobody);
    if (m == SLOTS) vc_guard(store + k, 1, &kown);
    vc_guards(true);
}
static void stop() { vc_guards(false); }
static bool loopP() { return (d <= n) & (o < n) & (moved < s) & (moved + (n - d) >= first) & (b->m_writeOffset == o); }
static bool loopC() { return (d <= n) & (o < n) & (moved < s) & (moved + d >= first) & (b->m_readOffset == o); }
static bool ownK() { return kown == owner(); }
static bool sMoved(u64 v) { return v == moved; }
static bool sLeft(u64 v) { return v == s - moved; }
static bool sSpace(u64 v) { return (v <= n - d) & (v <= n - o) & (v > 0) & ((v + moved >= first) | (v == n - o)); }
static bool sData(u64 v) { return (v <= d) & (v <= n - o) & (v > 0) & ((v + moved >= first) | (v == n - o)); }
static bool pMoved(void const * p) { return p == src + moved; }
static void produce(Mode m) {
    start(true, m);
    s = vc_len("s");
    first = std::min(s, n - d);
    vc_assume(s >= 1);
    src = vc_array<u8>(s, "data");
    if (m == CONTENT) vc_assume(j < s);
    vc_hint0(&loopP); vc_hint_u64(&sMoved); vc_hint_u64(&sLeft); vc_hint_u64(&sSpace); vc_hint_ptr(&pMoved);
    if (m == SLOTS) vc_hint0(&ownK);
    u64 const t = b->write(src, s);
    stop();
    if (m == COUNTS) {
        vc_assert(t == moved && t <= s, "the number of elements published is returned");
        vc_assert(t >= first, "all that fits from the start is written");
    }
    vc_assert(b->m_writeOffset == o, "the write offset is behind the last element");
    vc_cover("produce");
}
VC_PROOF(produce_counts) { produce(COUNTS); }
VC_PROOF(produce_slots) { produce(SLOTS); }
VC_PROOF(produce_content) { produce(CONTENT); }
static bool jInQueue() { return !jqueued() | (wrap(j - moved) == jslot); }
static bool jStored() { return !jqueued() || store[jslot] == jv; }
static bool jOut() { return !(j < moved) || dst[j] == jv; }
static bool pOut(void const * p) { return p == dst + moved; }
static void consume(Mode m) {
    start(false, m);
    s = vc_len("s");
    first = std::min(s, d);
    vc_assume(s >= 1);
    dst = vc_array<u8>(s, "out");
    if (m == CONTENT) vc_assume(j < s);
    vc_hint0(&loopC); vc_hint_u64(&sMoved); vc_hint_u64(&sLeft); vc_hint_u64(&sData); vc_hint_ptr(&pOut);
    if (m == SLOTS) vc_hint0(&ownK);
    if (m == CONTENT) { vc_hint0(&jInQueue); vc_hint0(&jStored); vc_hint0(&jOut); }
    u64 const t = b->read(dst, s);
    stop();
    if (m == COUNTS) {
        vc_assert(t == moved && t <= s, "the number of elements consumed is returned");
        vc_assert(t >= first, "all that was there from the start is read");
    }
    vc_assert(b->m_readOffset == o, "the read offset is at the first element left");
    if (m == CONTENT && j < t) vc_assert(dst[j] == jv, "the elements come out in order, as the producer published them");
    vc_cover("consume");
}
VC_PROOF(consume_counts) { consume(COUNTS); }
VC_PROOF(consume_slots) { consume(SLOTS); }
VC_PROOF(consume_content) { consume(CONTENT); }
// transfers through an actor, which may take as much of the range it is offered as it likes
static bool range(u8 const * p, u64 len) {      // the range offered, as far as slot k goes, is this side's to use
    u64 const at = static_cast<u64>(p - store);
    return (at < n) & (len <= n - at) & ((k < at) | (k - at >= len) | (kown == (producer ? 3 : 1)));
}
static u64 took(u64 len) {
    u64 x = vc_len("took");
    if (!vc_is_symbolic()) x %= len + 1u;
    vc_assume(x <= len);
    return x;
}
struct Producer {
    std::size_t operator()(u8 * p, std::size_t len) const noexcept
    { if (mode == SLOTS) vc_assert(range(p, len), "the actor is offered free slots"); return took(len); }
};
struct Consumer {
    std::size_t operator()(u8 const * p, std::size_t len) const noexcept
    { if (mode == SLOTS) vc_assert(range(p, len), "the actor is offered queued slots"); return took(len); }
};
static bool actP() { return (d <= n) & (o < n) & (b->m_writeOffset == o); }
static bool actC() { return (d <= n) & (o < n) & (b->m_readOffset == o); }
static bool aSpace(u64 v) { return (v <= n - d) & (v <= n - o) & (v > 0); }
static bool aData(u64 v) { return (v <= d) & (v <= n - o) & (v > 0); }
static bool aLeft(u64 v) { return v == ~u64(0) - moved; }
static void act(bool prod, Mode m) {
    start(prod, m);
    vc_hint0(prod ? &actP : &actC); vc_hint_u64(prod ? &aSpace : &aData); vc_hint_u64(&sMoved); vc_hint_u64(&aLeft);
    if (m == SLOTS) vc_hint0(&ownK);
    u64 const t = prod ? b->write(Producer()) : b->read(Consumer());
    stop();
    vc_assert(t == moved, "the total taken is returned");
    vc_assert((prod ? b->m_writeOffset : b->m_readOffset) == o, "the offset follows");
    vc_cover("act");
}
VC_PROOF(act_produce_counts) { act(true, COUNTS); }
VC_PROOF(act_produce_slots) { act(true, SLOTS); }
VC_PROOF(act_consume_counts) { act(false, COUNTS); }
VC_PROOF(act_consume_slots) { act(false, SLOTS); }
