// uint128_t: arithmetic is exactly the ring Z/2^128.
#include <sharemind/uint128_t.h>
#include "vc.h"
using sharemind::uint128_t;
using u128 = unsigned __int128;
static u128 val(uint128_t x) { return (u128(x.upper()) << 64) | x.lower(); }
static uint128_t any(char const * hi, char const * lo) { return uint128_t(vc_u64(hi), vc_u64(lo)); }

VC_PROOF(u128_add) {
    auto x = any("xh", "xl"), y = any("yh", "yl");
    vc_assert(val(x + y) == val(x) + val(y), "x + y == (x + y) mod 2^128");
    auto z = x; auto & zr = (z += y);
    vc_assert((&zr == &z) & (val(z) == val(x) + val(y)), "x += y");
    vc_cover("u128_add end");
}
VC_PROOF(u128_sub) {
    auto x = any("xh", "xl"), y = any("yh", "yl");
    vc_assert(val(x - y) == val(x) - val(y), "x - y == (x - y) mod 2^128");
    auto z = x; auto & zr = (z -= y);
    vc_assert((&zr == &z) & (val(z) == val(x) - val(y)), "x -= y");
}
VC_PROOF(u128_neg) {
    auto x = any("xh", "xl");
    vc_assert(val(-x) == u128(0) - val(x), "-x == 2^128 - x");
}
VC_PROOF(u128_incdec) {
    auto x = any("xh", "xl");
    auto a = x; auto & ar = ++a;
    vc_assert((&ar == &a) & (val(a) == val(x) + 1), "++x");
    auto b = x; auto ob = b++;
    vc_assert((val(b) == val(x) + 1) & (val(ob) == val(x)), "x++");
    auto c = x; auto & cr = --c;
    vc_assert((&cr == &c) & (val(c) == val(x) - 1), "--x");
    auto d = x; auto od = d--;
    vc_assert((val(d) == val(x) - 1) & (val(od) == val(x)), "x--");
}
VC_PROOF(u128_mul) {
    vc_config("limb", 32);
    auto x = any("xh", "xl"), y = any("yh", "yl");
    vc_assert(val(x * y) == val(x) * val(y), "x * y == (x * y) mod 2^128");
    auto z = x; auto & zr = (z *= y);
    vc_assert((&zr == &z) & (val(z) == val(x) * val(y)), "x *= y");
}
