// Flags and AtomicFlags: set operations on bits; each AtomicFlags operation is one atomic access
#include "vc.h"
#include <sharemind/AtomicFlags.h>
#include <sharemind/Flags.h>
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

template <typename E, typename U> static void flags() {
    using F = sharemind::Flags<E>;
    static_assert(sizeof(F) == sizeof(U), "");
    U const a = vc_any<U>("a"), b = vc_any<U>("b");
    auto const is = [](F const & f, U v) { return (f.load() == v) & (static_cast<U>(f) == v); };
    F f(a);
    vc_assert(is(f, a), "construction, load, conversion");
    vc_assert(is(f & b, U(a & b)) && is(f | b, U(a | b)) && is(f ^ b, U(a ^ b)) && is(f, a), "&, |, ^ leave the operand alone");
    auto const op = [&](U want, auto g) { F x(a); F & r = g(x); return (&r == &x) & is(x, want); };
    vc_assert(op(b, [&](F & x) -> F & { return x = b; }) && op(b, [&](F & x) -> F & { return x.store(b); }), "assignment, store");
    vc_assert(op(U(a & b), [&](F & x) -> F & { return x &= b; }), "&=");
    vc_assert(op(U(a | b), [&](F & x) -> F & { return x |= b; }) && op(U(a | b), [&](F & x) -> F & { return x.setFlags(b); }), "|=, setFlags(b)");
    vc_assert(op(U(a ^ b), [&](F & x) -> F & { return x ^= b; }) && op(U(a ^ b), [&](F & x) -> F & { return x.toggleFlags(b); }), "^=, toggleFlags(b)");
    vc_assert(op(U(a & ~b), [&](F & x) -> F & { return x.unsetFlags(b); }), "unsetFlags(b) clears exactly b");
    vc_assert(op(U(~U(0)), [&](F & x) -> F & { return x.setFlags(); }) && op(U(0), [&](F & x) -> F & { return x.unsetFlags(); })
              && op(U(~a), [&](F & x) -> F & { return x.toggleFlags(); }), "setFlags(), unsetFlags(), toggleFlags() act on all flags");
    F x(a);
    vc_assert(is(x.exchange(b), a) && is(x, b), "exchange returns the old flags");
    F const c(a);
    vc_assert(c.hasAnyOf(b) == ((a & b) != 0), "hasAnyOf");
    vc_assert(c.hasAllOf(b) == ((U) (a & b) == b), "hasAllOf");
    vc_assert(c.hasNoneOf(b) == ((a & b) == 0), "hasNoneOf");
    vc_cover("flags");
}
enum class E8 : u8 {}; enum class E16 : u16 {}; enum class E32 : u32 {}; enum class E64 : u64 {};
VC_PROOF(flags_8) { flags<E8, u8>(); }
VC_PROOF(flags_16) { flags<E16, u16>(); }
VC_PROOF(flags_32) { flags<E32, u32>(); }
VC_PROOF(flags_64) { flags<E64, u64>(); }
VC_PROOF(flags_u8) { flags<u8, u8>(); }
VC_PROOF(flags_u32) { flags<u32, u32>(); }

// Rely: other threads may change the flags at any time between two accesses; ghost state observes every access.
template <typename U> struct Obs {
    static unsigned n;
    static U old, now;
    static int order;
    static void * at;
    static void before(void * p, int o) {
        vc_havoc(p, sizeof(U), "env");
        std::memcpy(&old, p, sizeof(U));
        order = o; at = p; ++n;
    }
    static void after(void * p) { std::memcpy(&now, p, sizeof(U)); }
};
template <typename U> unsigned Obs<U>::n; template <typename U> U Obs<U>::old; template <typename U> U Obs<U>::now;
template <typename U> int Obs<U>::order; template <typename U> void * Obs<U>::at;
// LLVM orderings: 2 monotonic (relaxed), 4 acquire, 5 release, 6 acquire-release, 7 sequentially consistent
static bool at_least(int got, std::memory_order want) {
    switch (want) {
    case std::memory_order_relaxed: return got >= 2;
    case std::memory_order_consume: case std::memory_order_acquire: return got == 4 || got >= 6;
    case std::memory_order_release: return got >= 5;
    case std::memory_order_acq_rel: return got >= 6;
    default: return got == 7;
    }
}
/// op(x) returns the value it claims to have replaced (or read); f gives the new value from the old one
template <typename E, typename U, typename Op, typename F> static void one(char const * name, bool usesOld, std::memory_order mo, Op op, F f) {
    using O = Obs<U>;
    using A = sharemind::AtomicFlags<E>;
    U const init = vc_any<U>("init");
    A x(init);
    O::n = 0;
    O::old = O::now = init;
    U const r = op(x);
    if (!vc_is_symbolic()) {      // no interference in native runs
        U const want = f(init);
        vc_assert((!usesOld || r == init) && x.load().load() == want, name);
        return;
    }
    U const last = O::old, now = O::now;
    int const order = O::order;
    vc_assert(O::n == 1, "one single atomic access");
    vc_assert(O::at == static_cast<void *>(&x), "the access is to the flags");
    vc_assert(now == f(last), name);
    vc_assert(!usesOld || r == last, "the value returned is the one replaced");
    vc_assert(at_least(order, mo), "the access has at least the requested memory ordering");
    vc_cover("one");
}
template <typename E, typename U> static void aflags() {
    using O = Obs<U>;
    using A = sharemind::AtomicFlags<E>;
    vc_atomic_hooks(&O::before, &O::after);
    U const b = vc_any<U>("b");
    unsigned const which = vc_u8("order");
    vc_assume(which < 6);
    std::memory_order const orders[] = { std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_acquire,
                                         std::memory_order_release, std::memory_order_acq_rel, std::memory_order_consume };
    std::memory_order mo = std::memory_order_seq_cst;
    for (unsigned i = 0; i < 6; ++i)
        if (which == i) mo = orders[i];
    auto const seq = std::memory_order_seq_cst;
    auto const id = [](U v) { return v; };
    bool const rd = which < 3 || which == 5, wr = which < 2 || which == 3;      // orders allowed for loads and stores
    if (which == 0) {       // default arguments
        one<E, U>("load", true, seq, [&](A & x) { return x.load().load(); }, id);
        one<E, U>("store", false, seq, [&](A & x) { x.store(b); return b; }, [&](U) { return b; });
        one<E, U>("exchange", true, seq, [&](A & x) { return x.exchange(b).load(); }, [&](U) { return b; });
        one<E, U>("setFlags sets all flags", false, seq, [&](A & x) { x.setFlags(); return b; }, [&](U) { return U(~U(0)); });
        one<E, U>("unsetFlags clears all flags", false, seq, [&](A & x) { x.unsetFlags(); return b; }, [&](U) { return U(0); });
        one<E, U>("fetchSetFlags", true, seq, [&](A & x) { return x.fetchSetFlags().load(); }, [&](U) { return U(~U(0)); });
        one<E, U>("fetchUnsetFlags", true, seq, [&](A & x) { return x.fetchUnsetFlags().load(); }, [&](U) { return U(0); });
        one<E, U>("fetchSetFlags(b)", true, seq, [&](A & x) { return x.fetchSetFlags(b).load(); }, [&](U v) { return U(v | b); });
        one<E, U>("fetchUnsetFlags(b)", true, seq, [&](A & x) { return x.fetchUnsetFlags(b).load(); }, [&](U v) { return U(v & ~b); });
        one<E, U>("fetchToggleFlags(b)", true, seq, [&](A & x) { return x.fetchToggleFlags(b).load(); }, [&](U v) { return U(v ^ b); });
        // queries: the answer is that of the value read
        one<E, U>("hasAnyOf", false, seq, [&](A & x) { bool const r = static_cast<A const &>(x).hasAnyOf(b);
            vc_assert(r == ((O::old & b) != 0), "hasAnyOf answers for the value read"); return b; }, id);
        one<E, U>("hasAllOf", false, seq, [&](A & x) { bool const r = static_cast<A const &>(x).hasAllOf(b);
            vc_assert(r == (U(O::old & b) == b), "hasAllOf answers for the value read"); return b; }, id);
        one<E, U>("hasNoneOf", false, seq, [&](A & x) { bool const r = static_cast<A const &>(x).hasNoneOf(b);
            vc_assert(r == ((O::old & b) == 0), "hasNoneOf answers for the value read"); return b; }, id);
        return;
    }
    if (rd) {
        one<E, U>("load", true, mo, [&](A & x) { return x.load(mo).load(); }, id);
        one<E, U>("hasAnyOf", false, mo, [&](A & x) { bool const r = x.hasAnyOf(b, mo);
            vc_assert(r == ((O::old & b) != 0), "hasAnyOf answers for the value read"); return b; }, id);
    }
    if (wr) {
        one<E, U>("store", false, mo, [&](A & x) { x.store(b, mo); return b; }, [&](U) { return b; });
        one<E, U>("setFlags", false, mo, [&](A & x) { x.setFlags(mo); return b; }, [&](U) { return U(~U(0)); });
        one<E, U>("unsetFlags", false, mo, [&](A & x) { x.unsetFlags(mo); return b; }, [&](U) { return U(0); });
    }
    one<E, U>("exchange", true, mo, [&](A & x) { return x.exchange(b, mo).load(); }, [&](U) { return b; });
    one<E, U>("fetchSetFlags(b)", true, mo, [&](A & x) { return x.fetchSetFlags(b, mo).load(); }, [&](U v) { return U(v | b); });
    one<E, U>("fetchUnsetFlags(b)", true, mo, [&](A & x) { return x.fetchUnsetFlags(b, mo).load(); }, [&](U v) { return U(v & ~b); });
    one<E, U>("fetchToggleFlags(b)", true, mo, [&](A & x) { return x.fetchToggleFlags(b, mo).load(); }, [&](U v) { return U(v ^ b); });
    one<E, U>("fetchSetFlags", true, mo, [&](A & x) { return x.fetchSetFlags(mo).load(); }, [&](U) { return U(~U(0)); });
    one<E, U>("fetchUnsetFlags", true, mo, [&](A & x) { return x.fetchUnsetFlags(mo).load(); }, [&](U) { return U(0); });
}
/// compare-exchange: succeeds exactly when the flags equal the expected ones (weak: may also fail); on failure reports what it saw
template <typename E, typename U, typename Op> static void cas(bool weak, Op op) {
    using O = Obs<U>;
    using A = sharemind::AtomicFlags<E>;
    U const init = vc_any<U>("init"), e0 = vc_any<U>("expected"), d = vc_any<U>("desired");
    A x(init);
    O::n = 0; O::old = O::now = init;
    U e = e0;
    bool const r = op(x, e, d);
    U const saw = vc_is_symbolic() ? O::old : init, now = vc_is_symbolic() ? O::now : x.load().load();
    vc_assert(!vc_is_symbolic() || (O::n == 1 && O::order == 7), "one single sequentially consistent access");
    vc_assert(r ? saw == e0 && now == d && e == e0 : now == saw && e == saw && (weak || saw != e0), "compare-exchange semantics");
    if (r) vc_cover("success"); else vc_cover("failure");
}
template <typename E, typename U> static void cases() {
    using O = Obs<U>;
    using A = sharemind::AtomicFlags<E>;
    using F = sharemind::Flags<E>;
    vc_atomic_hooks(&O::before, &O::after);
    auto const seq = std::memory_order_seq_cst;
    switch (vc_u8("which")) {
    case 0: cas<E, U>(false, [](A & x, U & e, U d) { return x.compareExchangeStrong(e, d); }); break;
    case 1: cas<E, U>(true, [](A & x, U & e, U d) { return x.compareExchangeWeak(e, d); }); break;
    case 2: cas<E, U>(false, [](A & x, U & e, U d) { F f(e); bool const r = x.compareExchangeStrong(f, d); e = f.load(); return r; }); break;
    case 3: cas<E, U>(true, [](A & x, U & e, U d) { F f(e); bool const r = x.compareExchangeWeak(f, d); e = f.load(); return r; }); break;
    case 4: cas<E, U>(false, [&](A & x, U & e, U d) { return x.compareExchangeStrong(e, d, seq, seq); }); break;
    case 5: cas<E, U>(true, [&](A & x, U & e, U d) { return x.compareExchangeWeak(e, d, seq, seq); }); break;
    case 6: cas<E, U>(false, [&](A & x, U & e, U d) { F f(e); bool const r = x.compareExchangeStrong(f, d, seq, seq); e = f.load(); return r; }); break;
    default: cas<E, U>(true, [&](A & x, U & e, U d) { F f(e); bool const r = x.compareExchangeWeak(f, d, seq, seq); e = f.load(); return r; }); break;
    }
}
VC_PROOF(atomic_8) { aflags<E8, u8>(); }
VC_PROOF(atomic_32) { aflags<E32, u32>(); }
VC_PROOF(atomic_u64) { aflags<u64, u64>(); }
VC_PROOF(cas_8) { cases<E8, u8>(); }
VC_PROOF(cas_u32) { cases<u32, u32>(); }
