// uint_t<N, B>: bitwise operators, shifts, comparisons, bit access
#include "uint_t.h"

template <unsigned N, typename B> void bitops() {
    using S = spec<N, B>;
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    auto const m = S::mask();
    vc_assert(S::is(x & y, a & b), "x & y");
    vc_assert(S::is(x | y, a | b), "x | y");
    vc_assert(S::is(x ^ y, a ^ b), "x ^ y");
    vc_assert(S::is(~x, ~a & m), "~x: bits above N stay zero");
    vc_assert(!x == (a == 0), "!x");
    auto p = x; auto & pr = (p &= y);
    vc_assert((&pr == &p) & S::is(p, a & b), "x &= y");
    auto q = x; auto & qr = (q |= y);
    vc_assert((&qr == &q) & S::is(q, a | b), "x |= y");
    auto r = x; auto & rr = (r ^= y);
    vc_assert((&rr == &r) & S::is(r, a ^ b), "x ^= y");
    auto c = x;
    vc_assert(S::is(c, a), "copy construction");
    c = y; c = c;
    vc_assert(S::is(c, b), "copy assignment, self assignment");
    auto d = std::move(c);
    vc_assert(S::is(d, b), "move construction");
    d = std::move(x);
    vc_assert(S::is(d, a), "move assignment");
    typename S::U z;
    vc_assert(S::is(z, 0), "default construction gives 0");
    for (unsigned i = 0; i < S::nb; ++i)
        d.begin()[i] = vc_any<B>("raw");
    auto const raw = S::val(d);
    d.clear_unused_bits();
    vc_assert(S::is(d, raw & m), "clear_unused_bits");
    vc_cover("bitops end");
}
template <unsigned N, typename B> void compare() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    vc_assert((x == y) == (a == b), "x == y");
    vc_assert((x != y) == (a != b), "x != y");
    vc_assert((x < y) == (a < b), "x < y");
    vc_assert((x <= y) == (a <= b), "x <= y");
    vc_assert((x > y) == (a > b), "x > y");
    vc_assert((x >= y) == (a >= b), "x >= y");
    vc_cover("compare end");
}
template <unsigned N, typename B> void shifts() {
    using S = spec<N, B>;
    auto x = S::any("x");
    auto const a = S::val(x);
    auto const m = S::mask();
    for (unsigned s = 0; s < N; ++s) {
        std::uint64_t const k = s;
        vc_assert(S::is(x << k, (a << s) & m), "x << s == x * 2^s mod 2^N");
        vc_assert(S::is(x >> k, a >> s), "x >> s == floor(x / 2^s)");
        auto p = x; auto & pr = (p <<= k);
        vc_assert((&pr == &p) & S::is(p, (a << s) & m), "x <<= s");
        auto q = x; auto & qr = (q >>= k);
        vc_assert((&qr == &q) & S::is(q, a >> s), "x >>= s");
    }
    vc_cover("shifts end");
}
template <unsigned N, typename B> void shifts_u() {
    using S = spec<N, B>;
    auto x = S::any("x");
    auto const a = S::val(x);
    auto const m = S::mask();
    for (unsigned s = 0; s < N; ++s) {
        if (((std::uint64_t) s >> (N < 63 ? N : 63)) != 0)
            break;   // the amount itself must fit the type
        typename S::U k = s;
        vc_assert(S::is(x << k, (a << s) & m), "x << uint_t");
        vc_assert(S::is(x >> k, a >> s), "x >> uint_t");
        auto p = x; p <<= k;
        vc_assert(S::is(p, (a << s) & m), "x <<= uint_t");
        auto q = x; q >>= k;
        vc_assert(S::is(q, a >> s), "x >>= uint_t");
    }
    vc_cover("shifts_u end");
}
template <unsigned N, typename B> void bits() {
    using S = spec<N, B>;
    using V = typename S::V;
    vc_config("merge", 1);
    auto x = S::any("x");
    auto const a = S::val(x);
    bool const v = vc_bool("v");
    V const vv = v;
    for (unsigned i = 0; i < N; ++i) {
        V const one = V(1) << i;
        V const bit = (a >> i) & 1u;
        auto const & cx = x;
        vc_assert(cx[i] == bool(bit), "const bit access");
        vc_assert(bool(x[i]) == bool(bit), "bit access");
        vc_assert(~x[i] == !bool(bit), "~bit");
        auto p = x; p[i] = v;
        vc_assert(S::is(p, (a & ~one) | (vv << i)), "x[i] = b");
        p = x; p[i] |= v;
        vc_assert(S::is(p, a | (vv << i)), "x[i] |= b");
        p = x; p[i] &= v;
        vc_assert(S::is(p, a & ~((V(1) ^ vv) << i)), "x[i] &= b");
        p = x; p[i] ^= v;
        vc_assert(S::is(p, a ^ (vv << i)), "x[i] ^= b");
        p = x; p[i] -= v;
        vc_assert(S::is(p, a & ~(vv << i)), "x[i] -= b");
        p = x; p[i].flip();
        vc_assert(S::is(p, a ^ one), "x[i].flip()");
        unsigned const j = (i * 7u + 3u) % N;
        p = x; p[i] = x[j];
        vc_assert(S::is(p, (a & ~one) | (((a >> j) & 1u) << i)), "x[i] = x[j]");
    }
    vc_cover("bits end");
}
#define A(N, B) VC_PROOF(bitops_##N##_##B) { bitops<N, UT(B)>(); } VC_PROOF(compare_##N##_##B) { compare<N, UT(B)>(); }
#define H(N, B) VC_PROOF(shifts_##N##_##B) { shifts<N, UT(B)>(); }
#define HU(N, B) VC_PROOF(shifts_u_##N##_##B) { shifts_u<N, UT(B)>(); }
#define T(N, B) VC_PROOF(bits_##N##_##B) { bits<N, UT(B)>(); }
A(1,8) A(8,8) A(13,8) A(24,8) A(64,8) A(16,16) A(33,16) A(48,16) A(32,32) A(65,32) A(96,32) A(64,64) A(100,64) A(127,64) A(128,64) A(192,64) A(256,64)
H(1,8) H(8,8) H(13,8) H(24,8) H(64,8) H(16,16) H(33,16) H(32,32) H(65,32) H(64,64) H(100,64) H(128,64) H(192,64)
HU(8,8) HU(13,8) HU(24,8) HU(33,16) HU(65,32) HU(64,64) HU(100,64)
T(1,8) T(8,8) T(13,8) T(24,8) T(33,16) T(65,32) T(64,64) T(100,64)
