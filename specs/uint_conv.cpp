// uint_t<N, B>: construction from integers, uint128_t, other uint_t and generators; demotion
#include "uint_t.h"
#include <sharemind/integer_demotion.h>

template <unsigned N, typename B, typename T> void from_int() {
    using S = spec<N, B>;
    T const v = vc_any<T>("v");
    typename S::U x(v);
    vc_assert(S::is(x, typename S::V(v) & S::mask()), "uint_t(v) == v mod 2^N");
    auto y = S::any("y");
    auto & r = (y = v);
    vc_assert((&r == &y) & S::is(y, typename S::V(v) & S::mask()), "x = v");
}
template <unsigned N, typename B> void from() {
    from_int<N, B, std::uint8_t>(); from_int<N, B, std::uint16_t>(); from_int<N, B, std::uint32_t>();
    from_int<N, B, std::uint64_t>(); from_int<N, B, bool>();
    using S = spec<N, B>;
    int const i = vc_any<std::uint32_t>("i") >> 1;   // non-negative signed value
    typename S::U x(i);
    vc_assert(S::is(x, typename S::V(i) & S::mask()), "uint_t(v) for non-negative signed v");
    vc_cover("from end");
}
template <unsigned N, typename B> void from128() {
    vc_config("merge", 1);
    using S = spec<N, B>;
    std::uint64_t const h = vc_u64("h"), l = vc_u64("l");
    uint128_t w(h, l);
    typename S::U x(w);
    u128 const v = (u128(h) << 64) | l;
    vc_assert(S::is(x, typename S::V(v) & S::mask()), "uint_t(uint128_t) is the value mod 2^N");
    vc_cover("from128 end");
}
template <unsigned N, typename B, unsigned N2, typename B2> void from_uint() {
    using S = spec<N, B>;
    using S2 = spec<N2, B2>;
    auto y = S2::any("y");
    typename S::U x(y);
    vc_assert(S::is(x, typename S::V(S2::val(y)) & S::mask()), "uint_t<N>(uint_t<N2>) is the value mod 2^N");
    vc_cover("from_uint end");
}
template <unsigned N, typename B> void from_generator() {
    using S = spec<N, B>;
    B raw[S::nb];
    for (auto & b : raw)
        b = vc_any<B>("raw");
    typename S::V v = 0;
    for (unsigned i = 0; i < S::nb; ++i)
        v |= typename S::V(raw[i]) << (i * S::bb);
    auto g = [&](B * b, B * e) {
        vc_assert(e - b == S::nb, "the generator is asked for exactly the blocks");
        for (unsigned i = 0; b != e; ++b, ++i)
            *b = raw[i];
    };
    typename S::U x(g);
    vc_assert(S::is(x, v & S::mask()), "construction from a generator masks the unused bits");
    vc_cover("from_generator end");
}
template <typename T, unsigned N, typename B> void dem() {
    auto x = spec<N, B>::any("x");
    vc_assert(sharemind::demote_integer<T>(x) == T(spec<N, B>::val(x)), "demote_integer<T>(uint_t) keeps the low bits");
}
template <unsigned N1, typename B1, unsigned N, typename B> void dem_uint() {
    vc_config("merge", 1);
    auto x = spec<N, B>::any("x");
    auto r = sharemind::demote_integer<uint_t<N1, B1>>(x);
    using S = spec<N1, B1>;
    vc_assert(S::is(r, typename S::V(spec<N, B>::val(x)) & S::mask()), "demote_integer<uint_t> keeps the low bits");
    vc_cover("dem_uint end");
}
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
#define F(N, B) VC_PROOF(from_##N##_##B) { from<N, UT(B)>(); } VC_PROOF(from128_##N##_##B) { from128<N, UT(B)>(); } \
    VC_PROOF(from_generator_##N##_##B) { from_generator<N, UT(B)>(); }
F(1,8) F(8,8) F(13,8) F(24,8) F(16,16) F(33,16) F(32,32) F(65,32) F(64,64) F(100,64) F(128,64) F(192,64) F(80,16) F(72,8)
#define C(N, B, N2, B2) VC_PROOF(from_uint_##N##_##B##_##N2##_##B2) { from_uint<N, UT(B), N2, UT(B2)>(); }
C(13,8,24,8) C(24,8,13,8) C(33,16,64,64) C(64,64,33,16) C(100,64,65,32) C(65,32,100,64) C(128,64,128,8) C(128,8,128,64) C(9,16,13,8) C(5,8,64,64)
VC_PROOF(demote_prim) {
    dem<u8, 13, u8>(); dem<u8, 24, u8>(); dem<u16, 24, u8>(); dem<u16, 33, u16>(); dem<u32, 33, u16>(); dem<u32, 65, u32>();
    dem<u64, 65, u32>(); dem<u64, 100, u64>(); dem<u32, 64, u64>(); dem<u8, 128, u64>(); dem<u64, 192, u64>(); dem<u64, 72, u8>();
    vc_cover("demote_prim end");
}
VC_PROOF(demote_bool) {
    auto a = spec<13, u8>::any("a");
    vc_assert(sharemind::demote_integer<bool>(a) == (spec<13, u8>::val(a) != 0), "demote to bool is (x != 0)");
    auto b = spec<100, u64>::any("b");
    vc_assert(sharemind::demote_integer<bool>(b) == (spec<100, u64>::val(b) != 0), "demote to bool is (x != 0)");
    vc_cover("demote_bool end");
}
VC_PROOF(demote_to_128) {
    vc_config("merge", 1);
    auto a = spec<192, u64>::any("a");
    uint128_t r = sharemind::demote_integer<uint128_t>(a);
    vc_assert(((u128(r.upper()) << 64) | r.lower()) == u128(spec<192, u64>::val(a)), "demote to uint128_t keeps the low bits");
    auto b = spec<130, u8>::any("b");
    r = sharemind::demote_integer<uint128_t>(b);
    vc_assert(((u128(r.upper()) << 64) | r.lower()) == u128(spec<130, u8>::val(b)), "demote to uint128_t keeps the low bits");
    vc_cover("demote_to_128 end");
}
VC_PROOF(demote_from_prim) {
    u16 v = vc_u16("v");
    vc_assert(spec<13, u8>::is(sharemind::demote_integer<uint_t<13, u8>>(v), v & 0x1fffu), "demote_integer<uint_t>(integer)");
    u64 w = vc_u64("w");
    vc_assert(spec<33, u16>::is(sharemind::demote_integer<uint_t<33, u16>>(w), w & ((u64(1) << 33) - 1)), "demote_integer<uint_t>(integer)");
    vc_assert(spec<8, u8>::is(sharemind::demote_integer<uint_t<8, u8>>(w), w & 0xffu), "demote_integer<uint_t>(integer)");
    vc_cover("demote_from_prim end");
}
#define D(N1, B1, N, B) VC_PROOF(dem_uint_##N1##_##B1##_##N##_##B) { dem_uint<N1, UT(B1), N, UT(B)>(); }
D(13,8,24,8) D(33,16,64,64) D(65,32,100,64) D(8,8,64,64) D(20,8,33,16) D(64,64,128,64) D(100,64,192,64) D(100,64,128,8) D(40,8,65,32)
