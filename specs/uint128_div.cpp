// uint128_t: division with remainder over the natural numbers.
#include <sharemind/uint128_t.h>
#include "vc.h"
using sharemind::uint128_t;
using u128 = unsigned __int128;
using u256 = unsigned _BitInt(256);
static u128 val(uint128_t x) { return (u128(x.upper()) << 64) | x.lower(); }

static u128 gX, gY;
// after k of 128 steps: quotient*Y + remainder == the k leading bits of X
static bool inv(void const * qp, void const * rp, std::uint64_t k) {
    u128 q = val(*static_cast<uint128_t const *>(qp)), r = val(*static_cast<uint128_t const *>(rp));
    u128 qk = k == 0 ? 0 : q >> (128 - k);
    u128 xk = k == 0 ? 0 : gX >> (128 - k);
    bool low = k == 0 ? q == 0 : (k == 128 ? true : (q << k) == 0);
    if (k == 128) {
        vc_witness_set(0, q >> 64);
        vc_witness_set(1, std::uint64_t(q));
    }
    return (r < gY) & (r <= xk) & low & (u256(qk) * u256(gY) + u256(r) == u256(xk));
}
// contracts of the operators divMod is built from (proved by C01 and C03)
static uint128_t mk(u128 v) { return uint128_t(std::uint64_t(v >> 64), std::uint64_t(v)); }
static uint128_t c_shl(uint128_t x, std::uint64_t s) { vc_assert(s < 128, "requires: shift amount below 128"); return mk(val(x) << s); }
static uint128_t c_shr(uint128_t x, std::uint64_t s) { vc_assert(s < 128, "requires: shift amount below 128"); return mk(val(x) >> s); }
static uint128_t c_sub(uint128_t x, uint128_t y) { return mk(val(x) - val(y)); }
static uint128_t c_and(uint128_t x, uint128_t y) { return mk(val(x) & val(y)); }
static uint128_t c_or(uint128_t x, uint128_t y) { return mk(val(x) | val(y)); }
static bool c_eq(uint128_t x, uint128_t y) { return val(x) == val(y); }
static bool c_ne(uint128_t x, uint128_t y) { return val(x) != val(y); }
static bool c_ge(uint128_t x, uint128_t y) { return val(x) >= val(y); }
template <typename F> struct Pair { F * real, * contract; };
using F_s = uint128_t(uint128_t, std::uint64_t); using F_b = uint128_t(uint128_t, uint128_t); using F_c = bool(uint128_t, uint128_t);
extern "C" {
Pair<F_s> vc_replace_shl = { &sharemind::operator<<, &c_shl }, vc_replace_shr = { &sharemind::operator>>, &c_shr };
Pair<F_b> vc_replace_sub = { &sharemind::operator-, &c_sub }, vc_replace_and = { &sharemind::operator&, &c_and },
    vc_replace_or = { &sharemind::operator|, &c_or };
Pair<F_c> vc_replace_eq = { &sharemind::operator==, &c_eq }, vc_replace_ne = { &sharemind::operator!=, &c_ne },
    vc_replace_ge = { &sharemind::operator>=, &c_ge };
}
static void setup() {
    vc_config("limb", 128);
    vc_config("unfold", 1);
    vc_config("unwind", 1);
    vc_config("step", 1);
    vc_hint_obj2(&inv, sizeof(uint128_t));
}

// quotient and remainder are determined by q*Y + r == X, r < Y; both operators are checked
// against that characterisation, the other component being existentially witnessed
VC_PROOF(u128_div) {
    setup();
    uint128_t x(vc_u64("xh"), vc_u64("xl")), y(vc_u64("yh"), vc_u64("yl"));
    gX = val(x); gY = val(y);
    vc_assume(gY != 0);
    u256 p = u256(val(x / y)) * u256(gY);
    vc_assert((p <= u256(gX)) & (u256(gX) - p < u256(gY)), "x / y == floor(x / y)");
    vc_cover("u128_div end");
}
VC_PROOF(u128_mod) {
    setup();
    uint128_t x(vc_u64("xh"), vc_u64("xl")), y(vc_u64("yh"), vc_u64("yl"));
    gX = val(x); gY = val(y);
    vc_assume(gY != 0);
    u128 r = val(x % y);
    vc_assert(r < gY, "x % y < y");
    // r == X (mod Y): exists q with q * Y + r == X (the loop's quotient is the witness)
    u128 q = vc_is_symbolic() ? (u128(vc_witness_get(0)) << 64) | vc_witness_get(1) : gX / gY;
    vc_assert(u256(q) * u256(gY) + u256(r) == u256(gX), "x == q * y + x % y");
    vc_cover("u128_mod end");
}
VC_PROOF(u128_div_zero) {
    uint128_t x(vc_u64("xh"), vc_u64("xl")), y(0u);
    bool a = false, b = false;
    try { (void) (x / y); } catch (uint128_t::division_by_zero_error const &) { a = true; }
    try { (void) (x % y); } catch (uint128_t::division_by_zero_error const &) { b = true; }
    vc_assert(a & b, "division by zero throws division_by_zero_error");
}
