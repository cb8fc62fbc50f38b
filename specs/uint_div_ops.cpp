// uint_t<N, B>: /, %, /=, %= against the contract of divMod (proved in uint_div.cpp), and division by zero
#include "uint_t.h"

template <unsigned N, typename B> struct DivOps {
    using S = spec<N, B>;
    using U = typename S::U;
    using V = typename S::V;
    static V q, r, a, b;
    static typename U::div_t divmod(U x, U y) {
        vc_assert((S::val(x) == a) & (S::val(y) == b), "divMod is given the operands");
        U qu = S::any("q"), ru = S::any("r");
        q = S::val(qu); r = S::val(ru);
        return typename U::div_t{qu, ru};
    }
    static void run() {
        U x = S::any("x"), y = S::any("y");
        a = S::val(x); b = S::val(y);
        vc_assume(b != 0);
        V v = S::val(x / y);
        vc_assert(v == (vc_is_symbolic() ? q : V(a / b)), "x / y is the quotient of divMod");
        v = S::val(x % y);
        vc_assert(v == (vc_is_symbolic() ? r : V(a % b)), "x % y is the remainder of divMod");
        U p = x; auto & pr = (p /= y);
        vc_assert((&pr == &p) & (S::val(p) == (vc_is_symbolic() ? q : V(a / b))), "x /= y");
        p = x; auto & qr = (p %= y);
        vc_assert((&qr == &p) & (S::val(p) == (vc_is_symbolic() ? r : V(a % b))), "x %= y");
        vc_cover("div ops end");
    }
};
template <unsigned N, typename B> typename spec<N, B>::V DivOps<N, B>::q;
template <unsigned N, typename B> typename spec<N, B>::V DivOps<N, B>::r;
template <unsigned N, typename B> typename spec<N, B>::V DivOps<N, B>::a;
template <unsigned N, typename B> typename spec<N, B>::V DivOps<N, B>::b;
#define R(N, B) namespace sharemind { using U_##N##_##B = uint_t<N, UT(B)>; \
    U_##N##_##B::div_t divMod(U_##N##_##B, U_##N##_##B); } \
    extern "C" { struct { sharemind::U_##N##_##B::div_t (*a)(sharemind::U_##N##_##B, sharemind::U_##N##_##B), \
        (*b)(sharemind::U_##N##_##B, sharemind::U_##N##_##B); } \
        vc_replace_divmod_##N##_##B = { &sharemind::divMod, &DivOps<N, UT(B)>::divmod }; } \
    VC_PROOF(div_ops_##N##_##B) { DivOps<N, UT(B)>::run(); }
R(8,8) R(13,8) R(16,16) R(33,16) R(64,64) R(65,32) R(100,64) R(128,64)

template <unsigned N, typename B> void zero() {
    using S = spec<N, B>;
    auto const x = S::any("x");
    typename S::U const y;
    unsigned n = 0;
    try { (void) (x / y); } catch (typename S::U::division_by_zero_error const &) { n |= 1u; }
    try { (void) (x % y); } catch (typename S::U::division_by_zero_error const &) { n |= 2u; }
    try { auto z = x; z /= y; } catch (std::runtime_error const &) { n |= 4u; }
    try { auto z = x; z %= y; } catch (std::runtime_error const &) { n |= 8u; }
    try { (void) divMod(x, y); } catch (typename S::U::division_by_zero_error const &) { n |= 16u; }
    vc_assert(n == 31u, "division by zero throws division_by_zero_error");
    vc_cover("zero end");
}
VC_PROOF(zero_7) { zero<7, std::uint8_t>(); }
VC_PROOF(zero_40) { zero<40, std::uint16_t>(); }
VC_PROOF(zero_70) { zero<70, std::uint64_t>(); }
