// the same contracts on a larger instance (thorough tier)
#include "uint_t.h"

template <unsigned N, typename B> void addsub() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    auto const m = S::mask();
    vc_assert(S::is(x + y, (a + b) & m), "x + y == (x + y) mod 2^N, unused bits zero");
    vc_assert(S::is(x - y, (a - b) & m), "x - y == (x - y) mod 2^N, unused bits zero");
    vc_assert(S::is(-x, (0 - a) & m), "-x == (2^N - x) mod 2^N, unused bits zero");
    auto p = x; auto & pr = (p += y);
    vc_assert((&pr == &p) & S::is(p, (a + b) & m), "x += y");
    auto q = x; auto & qr = (q -= y);
    vc_assert((&qr == &q) & S::is(q, (a - b) & m), "x -= y");
    auto z = x; z += z;
    vc_assert(S::is(z, (a + a) & m), "x += x");
    auto w = x; w -= w;
    vc_assert(S::is(w, 0), "x -= x");
    vc_cover("addsub end");
}
template <unsigned N, typename B> void incdec() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x");
    auto const a = S::val(x);
    auto const m = S::mask();
    auto p = x; auto & pr = ++p;
    vc_assert((&pr == &p) & S::is(p, (a + 1u) & m), "++x");
    auto q = x; auto qo = q++;
    vc_assert(S::is(q, (a + 1u) & m) & S::is(qo, a), "x++");
    auto r = x; auto & rr = --r;
    vc_assert((&rr == &r) & S::is(r, (a - 1u) & m), "--x");
    auto s = x; auto so = s--;
    vc_assert(S::is(s, (a - 1u) & m) & S::is(so, a), "x--");
    vc_cover("incdec end");
}
template <unsigned N, typename B> void mul() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    vc_config("limb", sizeof(B) * 8u > 32u ? 32u : sizeof(B) * 8u);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    auto const m = S::mask();
    vc_assert(S::is(x * y, (a * b) & m), "x * y == (x * y) mod 2^N, unused bits zero");
    auto p = x; auto & pr = (p *= y);
    vc_assert((&pr == &p) & S::is(p, (a * b) & m), "x *= y");
    vc_cover("mul end");
}
#define A(N, B) VC_PROOF(addsub_##N##_##B) { addsub<N, UT(B)>(); } VC_PROOF(incdec_##N##_##B) { incdec<N, UT(B)>(); }
#define M(N, B) VC_PROOF(mul_##N##_##B) { mul<N, UT(B)>(); }
A(256,64)
