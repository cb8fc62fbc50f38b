// Integral comparisons agree with mathematical order for every pair of types
#include "vc.h"
#include <sharemind/IntegralComparisons.h>
using namespace sharemind;
using W = _BitInt(72);
template <typename A, typename B> void cmp() {
    A const a = vc_any<A>("a");
    B const b = vc_any<B>("b");
    W const x = W(a), y = W(b);
    vc_assert(integralLessThan(a, b) == (x < y), "integralLessThan");
    vc_assert(integralLess(a, b) == (x < y), "integralLess");
    vc_assert(integralLessEqual(a, b) == (x <= y), "integralLessEqual");
    vc_assert(integralEqual(a, b) == (x == y), "integralEqual");
    vc_assert(integralNotEqual(a, b) == (x != y), "integralNotEqual");
    vc_assert(integralGreaterEqual(a, b) == (x >= y), "integralGreaterEqual");
    vc_assert(integralGreater(a, b) == (x > y), "integralGreater");
    vc_assert(integralGreaterThan(a, b) == (x > y), "integralGreaterThan");
}
template <typename A> void unary() {
    A const a = vc_any<A>("a");
    W const x = W(a);
    vc_assert(integralPositive(a) == (x > 0), "integralPositive");
    vc_assert(integralNegative(a) == (x < 0), "integralNegative");
    vc_assert(integralNonNegative(a) == (x >= 0), "integralNonNegative");
    vc_assert(integralNonPositive(a) == (x <= 0), "integralNonPositive");
    vc_assert(integralZero(a) == (x == 0), "integralZero");
    vc_assert(integralNonZero(a) == (x != 0), "integralNonZero");
}
template <typename A> void all() {
    vc_config("merge", 1);
    unary<A>();
    cmp<A, bool>(); cmp<A, char>();
    cmp<A, signed char>(); cmp<A, unsigned char>(); cmp<A, short>(); cmp<A, unsigned short>();
    cmp<A, int>(); cmp<A, unsigned>(); cmp<A, long>(); cmp<A, unsigned long>(); cmp<A, long long>(); cmp<A, unsigned long long>();
    cmp<A, char16_t>(); cmp<A, char32_t>(); cmp<A, wchar_t>();
    vc_cover("all pairs");
}
VC_PROOF(c_bool) { all<bool>(); }
VC_PROOF(c_char) { all<char>(); }
VC_PROOF(c_schar) { all<signed char>(); }
VC_PROOF(c_uchar) { all<unsigned char>(); }
VC_PROOF(c_short) { all<short>(); }
VC_PROOF(c_ushort) { all<unsigned short>(); }
VC_PROOF(c_int) { all<int>(); }
VC_PROOF(c_uint) { all<unsigned>(); }
VC_PROOF(c_long) { all<long>(); }
VC_PROOF(c_ulong) { all<unsigned long>(); }
VC_PROOF(c_llong) { all<long long>(); }
VC_PROOF(c_ullong) { all<unsigned long long>(); }
VC_PROOF(c_char16) { all<char16_t>(); }
VC_PROOF(c_char32) { all<char32_t>(); }
VC_PROOF(c_wchar) { all<wchar_t>(); }
