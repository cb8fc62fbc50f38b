// uint128_t: /= and %= against the contracts of / and % (proved in uint128_div.cpp)
#include <sharemind/uint128_t.h>
#include "vc.h"
using sharemind::uint128_t;
using u128 = unsigned __int128;
static u128 val(uint128_t x) { return (u128(x.upper()) << 64) | x.lower(); }
static u128 gx, gy, gq, gr;
static uint128_t fresh(char const * n, u128 & g) {
    std::uint64_t a = vc_u64(n), b = vc_u64(n);
    g = (u128(a) << 64) | b;
    return uint128_t(a, b);
}
static uint128_t c_div(uint128_t x, uint128_t y) { vc_assert((val(x) == gx) & (val(y) == gy), "operands of /"); return fresh("q", gq); }
static uint128_t c_mod(uint128_t x, uint128_t y) { vc_assert((val(x) == gx) & (val(y) == gy), "operands of %"); return fresh("r", gr); }
extern "C" { struct { uint128_t (*a)(uint128_t, uint128_t), (*b)(uint128_t, uint128_t); }
    vc_replace_div = { &sharemind::operator/, &c_div }, vc_replace_mod = { &sharemind::operator%, &c_mod }; }
VC_PROOF(u128_div_assign) {
    auto x = fresh("x", gx), y = fresh("y", gy);
    vc_assume(gy != 0);
    auto a = x; auto & ar = (a /= y);
    vc_assert((&ar == &a) & (val(a) == (vc_is_symbolic() ? gq : gx / gy)), "x /= y");
    auto b = x; auto & br = (b %= y);
    vc_assert((&br == &b) & (val(b) == (vc_is_symbolic() ? gr : gx % gy)), "x %= y");
    vc_cover("div assign end");
}
