// isPowerOfTwo, min, max, toSigned, toUnsigned, signedToUnsigned, enumToUnderlying
#include "vc.h"
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
using namespace sharemind;
using W = _BitInt(72);
template <typename T> void pow2() {
    T const x = vc_any<T>("x");
    bool want = false;      // x is one of the powers of two its type can hold
    for (unsigned i = 0; i < sizeof(T) * 8u; ++i)
        want |= W(x) == (W(1) << i);
    vc_assert(isPowerOfTwo(x) == want, "isPowerOfTwo(x) iff x is 2^i for some i");
    vc_cover("pow2");
}
template <typename T> void minmax() {
    T const a = vc_any<T>("a"), b = vc_any<T>("b"), c = vc_any<T>("c"), d = vc_any<T>("d");
    vc_assert(sharemind::min(a) == a && sharemind::max(a) == a, "single argument");
    auto const m2 = sharemind::min(a, b);
    auto const M2 = sharemind::max(a, b);
    vc_assert(m2 <= a && m2 <= b && (m2 == a || m2 == b), "min(a, b)");
    vc_assert(M2 >= a && M2 >= b && (M2 == a || M2 == b), "max(a, b)");
    auto const m3 = sharemind::min(a, b, c);
    auto const M3 = sharemind::max(a, b, c);
    vc_assert(m3 <= a && m3 <= b && m3 <= c && (m3 == a || m3 == b || m3 == c), "min(a, b, c)");
    vc_assert(M3 >= a && M3 >= b && M3 >= c && (M3 == a || M3 == b || M3 == c), "max(a, b, c)");
    auto const m4 = sharemind::min(a, b, c, d);
    auto const M4 = sharemind::max(a, b, c, d);
    vc_assert(m4 <= a && m4 <= b && m4 <= c && m4 <= d && (m4 == a || m4 == b || m4 == c || m4 == d), "min(a, b, c, d)");
    vc_assert(M4 >= a && M4 >= b && M4 >= c && M4 >= d && (M4 == a || M4 == b || M4 == c || M4 == d), "max(a, b, c, d)");
    static_assert(std::is_same<std::decay_t<decltype(sharemind::max(a, b))>, T>::value, "");
    vc_cover("minmax");
}
template <typename S, typename U> void sign() {
    S const s = vc_any<S>("s");
    U const u = vc_any<U>("u");
    constexpr unsigned w = sizeof(S) * 8u;
    W const m = W(1) << w;
    static_assert(std::is_same<decltype(signedToUnsigned(s)), U>::value, "");
    static_assert(std::is_same<std::decay_t<decltype(toUnsigned(s))>, U>::value, "");
    static_assert(std::is_same<std::decay_t<decltype(toSigned(u))>, S>::value, "");
    W const su = s < 0 ? W(s) + m : W(s);
    vc_assert(W(signedToUnsigned(s)) == su, "signedToUnsigned: congruent modulo 2^w");
    vc_assert(W(toUnsigned(s)) == su, "toUnsigned: congruent modulo 2^w");
    vc_assert(W(toUnsigned(u)) == W(u), "toUnsigned: identity on unsigned");
    vc_assert(W(toSigned(u)) == (W(u) < m / 2 ? W(u) : W(u) - m), "toSigned: congruent modulo 2^w");
    vc_assert(W(toSigned(s)) == W(s), "toSigned: identity on signed");
    vc_assert(toSigned(toUnsigned(s)) == s && toUnsigned(toSigned(u)) == u, "mutually inverse");
    vc_assert(&toUnsigned(u) == &u && &toSigned(s) == &s, "identity returns the argument itself");
    vc_cover("sign");
}
template <typename T> void enums() {
    enum class E : T {};
    T const v = vc_any<T>("v");
    E const e = static_cast<E>(v);
    static_assert(std::is_same<decltype(enumToUnderlying(e)), T>::value, "");
    vc_assert(enumToUnderlying(e) == v, "enumToUnderlying keeps the value");
    vc_cover("enums");
}
#define T1(n, T) VC_PROOF(pow2_##n) { pow2<T>(); } VC_PROOF(minmax_##n) { minmax<T>(); } VC_PROOF(enums_##n) { enums<T>(); }
T1(s8, signed char) T1(u8, unsigned char) T1(s16, short) T1(u16, unsigned short) T1(s32, int) T1(u32, unsigned)
T1(s64, long) T1(u64, unsigned long) T1(sll, long long) T1(ull, unsigned long long) T1(ch, char)
#define T2(n, S, U) VC_PROOF(sign_##n) { sign<S, U>(); }
T2(8, signed char, unsigned char) T2(16, short, unsigned short) T2(32, int, unsigned) T2(64, long, unsigned long)
T2(ll, long long, unsigned long long)
