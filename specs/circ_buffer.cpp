// CircBufferSCSP: a FIFO queue of any capacity (sequential behaviour of every operation from every state)
#include "vc.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <limits>
#include <memory>
#include <sharemind/CircBufferSCSP.h>
using u64 = std::uint64_t;
using u8 = unsigned char;
static u64 len(char const * name) { return vc_len(name); }
#define UNWIND() vc_config("unwind", 8)

template <typename T, typename V> struct Fifo {
    using Buf = sharemind::CircBufferSCSP<T, sharemind::CircBufferNoLocking>;
    u64 const n = len("n");
    Buf * b;
    u64 r, d;          // the queue is the d elements starting at offset r, wrapping at n
    u64 j;             // an arbitrary position
    V const * store() const { return static_cast<V const *>(b->arrayStart()); }
    static u64 wrap(u64 r, u64 i, u64 n) { return i < n - r ? r + i : i - (n - r); }
    V at(u64 i) const { return store()[wrap(b->readOffset(), i, n)]; }
    bool state(u64 r_, u64 d_) const {
        return (b->bufferSize() == n) & (b->dataAvailable() == d_) & (b->readOffset() == r_) & (b->writeOffset() == wrap(r_, d_, n));
    }
    alignas(Buf) char mem[sizeof(Buf)];
    Fifo() {
        UNWIND();
        vc_assume(n >= 1);
        b = new (mem) Buf(n);
        vc_assert(state(0, 0), "a new buffer is empty");
        // reach an arbitrary state: advance both offsets by r, then publish d elements
        r = len("r"); d = len("d");
        vc_assume(r < n); vc_assume(d <= n);
        b->haveWrittenNoRet(r);
        b->haveReadNoRet(r);
        b->haveWrittenNoRet(d);
        vc_havoc(const_cast<V *>(store()), n * sizeof(V), "content");
        j = vc_ghost_u64();
    }
    ~Fifo() { b->~Buf(); }
};

template <typename T, typename V> static void queries() {
    Fifo<T, V> f;
    auto & b = *f.b;
    u64 const w = f.wrap(f.r, f.d, f.n), sp = f.n - f.d;
    vc_assert(f.state(f.r, f.d), "marking r elements written and read and d written gives read offset r and d elements");
    vc_assert((b.spaceAvailable() == sp) & (b.full() == (sp == 0)) & (b.empty() == (f.d == 0)), "space, full, empty");
    u64 ube = 0;
    switch (vc_u8("query") & 3) {
    case 0: vc_assert((b.dataAvailable(ube) == f.d) & (ube == std::min(f.d, f.n - f.r)), "elements available, and until the buffer end"); break;
    case 1: vc_assert((b.spaceAvailable(ube) == sp) & (ube == std::min(sp, f.n - w)), "space available, and until the buffer end"); break;
    case 2: vc_assert(b.dataAvailableUntilBufferEnd() == std::min(f.d, f.n - f.r), "elements available until the buffer end"); break;
    case 3: vc_assert(b.spaceAvailableUntilBufferEnd() == std::min(sp, f.n - w), "space available until the buffer end"); break;
    }
    vc_cover("queries");
}
template <typename T, typename V> static void done() {
    using F = Fifo<T, V>;
    F f;
    u64 const s = len("s");
    V x{};
    if (f.j < f.n) x = f.store()[f.j];
    if (vc_bool("write")) {
        vc_assume(s <= f.n - f.d);
        if (vc_bool("ube")) {
            u64 const w = F::wrap(f.r, f.d + s, f.n);
            vc_assert(f.b->haveWrittenRetUbe(s) == std::min(f.n - f.d - s, f.n - w), "haveWrittenRetUbe returns the space until the buffer end");
        } else
            vc_assert(f.b->haveWritten(s) == f.n - f.d - s, "haveWritten returns the free space");
        vc_assert(f.state(f.r, f.d + s), "haveWritten appends s elements");
    } else {
        vc_assume(s <= f.d);
        u64 const r2 = F::wrap(f.r, s, f.n);
        if (vc_bool("ube"))
            vc_assert(f.b->haveReadRetUbe(s) == std::min(f.d - s, f.n - r2), "haveReadRetUbe returns the elements until the buffer end");
        else
            vc_assert(f.b->haveRead(s) == f.d - s, "haveRead returns the number of elements left");
        vc_assert(f.state(r2, f.d - s), "haveRead drops the first s elements");
    }
    if (f.j < f.n) vc_assert(f.store()[f.j] == x, "marking moves no element");
    vc_cover("done");
}
template <typename T, typename V> static void write() {
    Fifo<T, V> f;
    u64 const s = len("s"), t = std::min(s, f.n - f.d);
    vc_assume(s >= 1);
    V const * const data = vc_array<V>(s, "data");
    u64 const w = f.b->writeOffset();
    V x{};
    if (f.j < f.d) x = f.at(f.j);
    vc_assert(f.b->write(data, s) == t, "write takes as many elements as fit");
    vc_assert(f.state(f.r, f.d + t), "write appends that many");
    if (f.j < f.d)
        vc_assert(f.at(f.j) == x, "the elements already queued stay");
    else if (f.j < f.d + t)
        vc_assert(f.at(f.j) == data[f.j - f.d], "the appended elements are the first of the input, in order");
    vc_cover("write");
}
template <typename T, typename V> static void read() {
    Fifo<T, V> f;
    u64 const s = len("s"), t = std::min(s, f.d);
    vc_assume(s >= 1);
    V * const out = vc_array<V>(s, "out");
    V x{}, o{};
    if (f.j < t) x = f.at(f.j);
    if (f.j < s) o = out[f.j];
    vc_assert(f.b->read(out, s) == t, "read gives as many elements as there are");
    if (f.j < t)
        vc_assert(out[f.j] == x, "the elements come out first in, first out");
    else if (f.j < s)
        vc_assert(out[f.j] == o, "nothing is written behind the elements read");
    vc_cover("read");
}
template <typename T, typename V> static void rest() {
    Fifo<T, V> f;
    u64 const s = len("s"), t = std::min(s, f.d);
    vc_assume(s >= 1);
    V * const out = vc_array<V>(s, "out");
    V x{};
    bool const q = (f.j >= t) & (f.j < f.d);
    if (q) x = f.at(f.j);
    f.b->read(out, s);
    vc_assert(f.state(Fifo<T, V>::wrap(f.r, t, f.n), f.d - t), "read removes that many");
    if (q)
        vc_assert(f.at(f.j - t) == x, "the remaining elements stay in order");
    vc_cover("rest");
}
// an actor that fills (or consumes) any part of what it is offered
template <typename T, typename V, typename P> struct Actor {
    Fifo<T, V> * f; u64 start, have; u64 * total; bool * stopped; V x;
    std::size_t operator()(P * p, std::size_t n) noexcept {
        u64 const at = f->wrap(start, *total, f->n);
        vc_assert(!*stopped, "no call after a partial transfer");
        vc_assert(static_cast<V const *>(p) == f->store() + at, "the actor gets the next position");
        vc_assert(n == std::min(have - *total, f->n - at) && n > 0, "and all that is available there until the buffer end");
        u64 const k = len("k");
        vc_assume(k <= n);
        if (!std::is_const<P>::value)
            vc_havoc(const_cast<V *>(static_cast<V const *>(p)), n * sizeof(V), "produced");
        *total += k;
        *stopped = k < n;
        return k;
    }
};
template <typename T, typename V> static void actors() {
    Fifo<T, V> f;
    u64 total = 0; bool stopped = false;
    V x{};
    if (f.j < f.d) x = f.at(f.j);
    if (vc_bool("write")) {
        u64 const ret = f.b->write(Actor<T, V, T>{&f, f.b->writeOffset(), f.n - f.d, &total, &stopped, x});
        vc_assert(ret == total, "the number of elements written is returned");
        vc_assert(stopped || total == f.n - f.d, "writing goes on until the actor stops or the buffer is full");
        vc_assert(f.state(f.r, f.d + total), "the elements written are appended");
        if (f.j < f.d) vc_assert(f.at(f.j) == x, "the elements already queued stay");
    } else {
        u64 const ret = f.b->read(Actor<T, V, T const>{&f, f.r, f.d, &total, &stopped, x});
        vc_assert(ret == total, "the number of elements read is returned");
        vc_assert(stopped || total == f.d, "reading goes on until the actor stops or the buffer is empty");
        vc_assert(f.state(f.wrap(f.r, total, f.n), f.d - total), "the elements read are removed");
        if (f.j >= total && f.j < f.d) vc_assert(f.at(f.j - total) == x, "the remaining elements stay in order");
    }
    vc_cover("actors");
}
#define PROOFS(name, T, V) \
    VC_PROOF(queries_##name) { queries<T, V>(); } \
    VC_PROOF(done_##name) { done<T, V>(); } \
    VC_PROOF(write_##name) { write<T, V>(); } \
    VC_PROOF(rest_##name) { rest<T, V>(); } \
    VC_PROOF(read_##name) { read<T, V>(); }
#ifdef BIG
PROOFS(u64, u64, u64)
#else
PROOFS(u8, u8, u8)
PROOFS(u32, std::uint32_t, std::uint32_t)
PROOFS(void, void, u8)
VC_PROOF(actors_u8) { actors<u8, u8>(); }
#endif
