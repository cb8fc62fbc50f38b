// uint_t<N, B>: addition, subtraction, negation, increment, multiplication modulo 2^N
#include "uint_t.h"

template <unsigned N, typename B> void addsub() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    auto const m = S::mask();
    vc_assert(S::is(x + y, (a + b) & m), "x + y == (x + y) mod 2^N, unused bits zero");
    vc_assert(S::is(x - y, (a - b) & m), "x - y == (x - y) mod 2^N, unused bits zero");
    vc_assert(S::is(-x, (0 - a) & m), "-x == (2^N - x) mod 2^N, unused bits zero");
    auto p = x; auto & pr = (p += y);
    vc_assert((&pr == &p) & S::is(p, (a + b) & m), "x += y");
    auto q = x; auto & qr = (q -= y);
    vc_assert((&qr == &q) & S::is(q, (a - b) & m), "x -= y");
    auto z = x; z += z;
    vc_assert(S::is(z, (a + a) & m), "x += x");
    auto w = x; w -= w;
    vc_assert(S::is(w, 0), "x -= x");
    vc_cover("addsub end");
}
template <unsigned N, typename B> void incdec() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x");
    auto const a = S::val(x);
    auto const m = S::mask();
    auto p = x; auto & pr = ++p;
    vc_assert((&pr == &p) & S::is(p, (a + 1u) & m), "++x");
    auto q = x; auto qo = q++;
    vc_assert(S::is(q, (a + 1u) & m) & S::is(qo, a), "x++");
    auto r = x; auto & rr = --r;
    vc_assert((&rr == &r) & S::is(r, (a - 1u) & m), "--x");
    auto s = x; auto so = s--;
    vc_assert(S::is(s, (a - 1u) & m) & S::is(so, a), "x--");
    vc_cover("incdec end");
}
template <unsigned N, typename B> void mul() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    vc_config("limb", sizeof(B) * 8u > 32u ? 32u : sizeof(B) * 8u);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    auto const m = S::mask();
    vc_assert(S::is(x * y, (a * b) & m), "x * y == (x * y) mod 2^N, unused bits zero");
    auto p = x; auto & pr = (p *= y);
    vc_assert((&pr == &p) & S::is(p, (a * b) & m), "x *= y");
    vc_cover("mul end");
}
#define A(N, B) VC_PROOF(addsub_##N##_##B) { addsub<N, UT(B)>(); } VC_PROOF(incdec_##N##_##B) { incdec<N, UT(B)>(); }
#define M(N, B) VC_PROOF(mul_##N##_##B) { mul<N, UT(B)>(); }
A(1,8) A(8,8) A(13,8) A(24,8) A(64,8) A(16,16) A(33,16) A(48,16) A(32,32) A(65,32) A(96,32) A(64,64) A(100,64) A(127,64) A(128,64) A(192,64)
M(1,8) M(7,8) M(8,8) M(13,8) M(24,8) M(9,16) M(16,16) M(20,16) M(48,16) M(31,32) M(32,32) M(65,32) M(96,32) M(50,64) M(64,64) M(100,64) M(128,64)

template <typename T, typename W> void hilo() {
    T u = vc_any<T>("u"), v = vc_any<T>("v");
    if (sizeof(T) > 2u) vc_config("limb", 32u);
    auto r = sharemind::multHiLo<T>(u, v);
    vc_assert(((W(r.hi) << (sizeof(T) * 8u)) | r.lo) == W(W(u) * W(v)), "multHiLo: hi * 2^b + lo == u * v");
    vc_cover("hilo end");
}
VC_PROOF(hilo8) { hilo<std::uint8_t, std::uint16_t>(); }
VC_PROOF(hilo16) { hilo<std::uint16_t, std::uint32_t>(); }
VC_PROOF(hilo32) { hilo<std::uint32_t, std::uint64_t>(); }
VC_PROOF(hilo64) { hilo<std::uint64_t, u128>(); }
