// uint128_t: bitwise operators, shifts, comparisons, conversions to and from integers.
#include <sharemind/uint128_t.h>
#include <sharemind/integer_demotion.h>
#include "vc.h"
using sharemind::uint128_t;
using u128 = unsigned __int128;
static u128 val(uint128_t x) { return (u128(x.upper()) << 64) | x.lower(); }
static uint128_t any(char const * h, char const * l) {
    std::uint64_t a = vc_u64(h), b = vc_u64(l);
    return uint128_t(a, b);
}

VC_PROOF(u128_bitops) {
    auto x = any("xh", "xl"), y = any("yh", "yl");
    vc_assert(val(x & y) == (val(x) & val(y)), "x & y");
    vc_assert(val(x | y) == (val(x) | val(y)), "x | y");
    vc_assert(val(x ^ y) == (val(x) ^ val(y)), "x ^ y");
    vc_assert(val(~x) == ~val(x), "~x");
    vc_assert(!x == (val(x) == 0), "!x");
    auto a = x; auto & ar = (a &= y);
    vc_assert((&ar == &a) & (val(a) == (val(x) & val(y))), "x &= y");
    auto b = x; auto & br = (b |= y);
    vc_assert((&br == &b) & (val(b) == (val(x) | val(y))), "x |= y");
    auto c = x; auto & cr = (c ^= y);
    vc_assert((&cr == &c) & (val(c) == (val(x) ^ val(y))), "x ^= y");
    vc_cover("u128_bitops end");
}
VC_PROOF(u128_shifts) {
    auto x = any("xh", "xl");
    std::uint64_t s = vc_u64("s");
    vc_assume(s < 128);
    vc_assert(val(x << s) == (val(x) << s), "x << s == x * 2^s mod 2^128");
    vc_assert(val(x >> s) == (val(x) >> s), "x >> s == floor(x / 2^s)");
    auto a = x; auto & ar = (a <<= s);
    vc_assert((&ar == &a) & (val(a) == (val(x) << s)), "x <<= s");
    auto b = x; auto & br = (b >>= s);
    vc_assert((&br == &b) & (val(b) == (val(x) >> s)), "x >>= s");
    vc_cover("u128_shifts end");
}
VC_PROOF(u128_compare) {
    auto x = any("xh", "xl"), y = any("yh", "yl");
    u128 a = val(x), b = val(y);
    vc_assert((x == y) == (a == b), "x == y");
    vc_assert((x != y) == (a != b), "x != y");
    vc_assert((x < y) == (a < b), "x < y");
    vc_assert((x <= y) == (a <= b), "x <= y");
    vc_assert((x > y) == (a > b), "x > y");
    vc_assert((x >= y) == (a >= b), "x >= y");
    vc_cover("u128_compare end");
}
template <typename T> static void conv(char const * n) {
    T v = vc_any<T>(n);
    uint128_t x(v);
    vc_assert(val(x) == u128(std::uint64_t(v)), "uint128_t(v) == v for unsigned v");
    uint128_t y(5u, 7u);
    auto & r = (y = v);
    vc_assert((&r == &y) & (val(y) == u128(std::uint64_t(v))), "x = v");
}
VC_PROOF(u128_from_integers) {
    conv<std::uint8_t>("a"); conv<std::uint16_t>("b"); conv<std::uint32_t>("c"); conv<std::uint64_t>("d"); conv<bool>("e");
    std::uint64_t h = vc_u64("h"), l = vc_u64("l");
    uint128_t x(h, l);
    vc_assert((x.upper() == h) & (x.lower() == l), "upper / lower");
    vc_cover("u128_from end");
}
VC_PROOF(u128_to_integers) {
    using sharemind::demote_integer;
    auto x = any("xh", "xl");
    u128 v = val(x);
    vc_assert(demote_integer<std::uint64_t>(x) == std::uint64_t(v), "demote to 64 bits");
    vc_assert(demote_integer<std::uint32_t>(x) == std::uint32_t(v), "demote to 32 bits");
    vc_assert(demote_integer<std::uint16_t>(x) == std::uint16_t(v), "demote to 16 bits");
    vc_assert(demote_integer<std::uint8_t>(x) == std::uint8_t(v), "demote to 8 bits");
    vc_assert(demote_integer<bool>(x) == (v != 0), "demote to bool is (x != 0)");
    std::uint64_t w = vc_u64("w");
    vc_assert(demote_integer<std::uint32_t>(w) == std::uint32_t(w), "demote 64 -> 32");
    vc_assert(demote_integer<std::uint16_t>(w) == std::uint16_t(w), "demote 64 -> 16");
    vc_assert(demote_integer<std::uint8_t>(w) == std::uint8_t(w), "demote 64 -> 8");
    vc_assert(demote_integer<std::uint8_t>(std::uint32_t(w)) == std::uint8_t(w), "demote 32 -> 8");
    vc_assert(demote_integer<std::uint8_t>(std::uint16_t(w)) == std::uint8_t(w), "demote 16 -> 8");
    vc_assert(demote_integer<bool>(w) == (w != 0), "demote 64 -> bool");
    vc_cover("u128_to end");
}
