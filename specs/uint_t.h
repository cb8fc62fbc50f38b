// shared by the uint_t specifications: arbitrary values satisfying the class invariant
// (unused bits are zero) and their meaning as natural numbers below 2^N
#ifndef SPEC_UINT_T_H
#define SPEC_UINT_T_H
#include <sharemind/uint_t.h>
#include "vc.h"
using sharemind::uint_t;
using sharemind::uint128_t;
using u128 = unsigned __int128;

template <unsigned N> struct wide_sel { };
template <unsigned S> struct wide { using type = unsigned _BitInt(256); };
template <> struct wide<1> { using type = std::uint64_t; };
template <> struct wide<2> { using type = u128; };

template <unsigned N, typename B> struct spec {
    using U = uint_t<N, B>;
    static constexpr unsigned bb = sizeof(B) * 8u;
    static constexpr unsigned nb = (((N + 7u) / 8u) + sizeof(B) - 1u) / sizeof(B);
    using V = typename wide<(nb * bb <= 64u) ? 1 : (nb * bb <= 128u) ? 2 : 3>::type;
    static constexpr unsigned vbits = sizeof(V) * 8u;
    static V mask() { return V(~V(0)) >> (vbits - N); }
    static V val(U const & x) {
        V r = 0;
        for (unsigned i = 0; i < nb; ++i)
            r |= V(x.begin()[i]) << (i * bb);
        return r;
    }
    /// class invariant: bits N.. of the last block are zero
    static bool wf(U const & x) {
        constexpr unsigned used = N - (nb - 1u) * bb;
        return used == bb || (x.begin()[nb - 1u] >> (used % bb)) == 0;
    }
    static U any(char const * name) {
        U x;
        for (unsigned i = 0; i < nb; ++i)
            x.begin()[i] = vc_any<B>(name);
        vc_assume(wf(x));
        return x;
    }
    static bool is(U const & x, V v) { return wf(x) & (val(x) == v); }
};
#define TYPES_SMALL(F) F(8,8) F(13,8) F(24,8) F(16,16) F(33,16) F(32,32)
#define UT(B) std::uint##B##_t
#endif
