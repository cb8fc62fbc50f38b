// printing of uint128_t and uint_t: exactly the digits of the value in base 16, 8 or 10
#include "vc.h"
#include "vc_print.h"
#include "uint_t.h"
using W = unsigned _BitInt(256);

// Contract of divMod (proved by C02 / C07): x == q * y + r, r < y.
// Ghost state: the dividends form a chain of quotients, so the remainders are the digits.
struct Ghost {
    W X, cur, bound;         // printed value; dividend of the next step; an upper bound of it
    unsigned base, n;        // steps so far
    bool upper;
    char d[300];             // digits as characters, least significant first
    bool top;                // the last digit is not zero
};
static Ghost g;
static char digit(unsigned d, bool upper) {
    static char const lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
    return (upper ? up : lo)[d];
}

static void start(W x, W max, unsigned base, bool upper) {
    g.upper = upper; g.X = g.cur = x; g.bound = max; g.base = base; g.n = 0;
}
/// the checks made when divMod is called on (x, y) and the properties of its results
static void step(W x, W y, W q, W r) {
    vc_assert(x == g.cur, "each digit is split off the quotient of the previous step");
    vc_assert(y == g.base, "digits are split off in the selected base");
    g.bound /= g.base;
    // ensures of divMod, in the form derived by lemma_div below
    vc_assume((r < g.base) & (q <= g.bound) & vc_implies(q == 0, r == x));
    g.cur = q;
    g.top = r != 0;
    g.d[g.n++] = digit((unsigned) r, g.upper);
}
template <unsigned base> static void lemma() {
    std::uint64_t a = vc_u64("a"), b = vc_u64("b"), c = vc_u64("c"), d = vc_u64("d"), e = vc_u64("e"), f = vc_u64("f");
    W q = (W(a) << 64) | b, x = (W(c) << 64) | d, B = (W(e) << 64) | f, r = vc_u64("r");
    std::uint64_t h = vc_u64("h"), l = vc_u64("l");
    W Bq = (W(h) << 64) | l, Br = vc_u64("s");
    vc_assume((x <= B) & (Bq * base + Br == B) & (Br < base));
    vc_assume((r < base) & (q * base + r == x));       // ensures of divMod
    vc_assert(q <= Bq, "the quotient is at most the bound divided by the base");
    vc_assert(vc_implies(q == 0, r == x), "a zero quotient leaves the dividend as the digit");
}
VC_PROOF(lemma_div_10) { lemma<10>(); }
VC_PROOF(lemma_div_16) { lemma<16>(); }
VC_PROOF(lemma_div_8) { lemma<8>(); }
static void check(Printed & p, std::uint64_t lo, std::uint64_t hi, W x, unsigned base, bool upper, bool pos) {
    p.finish();
    if (x == 0) {
        vc_assert(p.len() == 1 && p.at(0) == '0', "zero prints as 0");
        vc_cover("zero");
        return;
    }
#ifdef VC_NATIVE
    g.n = 0;
    for (W y = x; y != 0; y /= base)
        g.d[g.n++] = digit((unsigned) (y % base), g.upper);
    g.top = true;
    g.cur = 0;
#endif
    vc_assert(g.cur == 0, "all digits are printed");
    vc_assert(p.len() == g.n + pos, "the number of characters is the number of digits (and the sign)");
    if (pos)
        vc_assert(p.at(0) == '+', "showpos prints a plus sign");
    for (unsigned i = 0; i < g.n; ++i)
        vc_assert(p.at(pos + i) == g.d[g.n - 1u - i], "digits are printed most significant first");
    vc_assert(g.top, "no leading zeros");
    vc_cover("nonzero");
}
static std::ios_base::fmtflags fl(unsigned base, bool upper, bool pos) {
    return (base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::dec)
         | (upper ? std::ios_base::uppercase : std::ios_base::fmtflags()) | (pos ? std::ios_base::showpos : std::ios_base::fmtflags());
}

// ---- uint128_t (divMod is private: the contract is attached by its symbol name)
static u128 val(uint128_t x) { return (u128(x.upper()) << 64) | x.lower(); }
extern "C" void vc_contract__ZN9sharemind9uint128_t6divModES0_S0_RS0_S1_(uint128_t x, uint128_t y, uint128_t & q, uint128_t & r) {
    std::uint64_t a = vc_u64("q"), b = vc_u64("q");
    std::uint64_t c = vc_u8("r");
    step(val(x), val(y), val(uint128_t(a, b)), c);
    q = uint128_t(a, b);
    r = uint128_t(c);
}
static void u128_print(unsigned base, bool upper, bool pos) {
    vc_config("merge", 1);
    vc_config("unwind", 200);
    std::uint64_t hi = vc_u64("hi"), lo = vc_u64("lo");
    uint128_t x(hi, lo);
    W const v = val(x);
    start(v, W(~u128(0)), base, upper);
    Printed p;
    p.flags(fl(base, upper, pos));
    auto & s = p.stream() << x;
    vc_assert(&s == &p.stream(), "operator<< returns the stream");
    check(p, lo, hi, v, base, upper, pos);
}
VC_PROOF(u128_dec) { u128_print(10, false, false); }
VC_PROOF(u128_dec_pos) { u128_print(10, true, true); }
VC_PROOF(u128_hex) { u128_print(16, false, false); }
VC_PROOF(u128_hex_upper_pos) { u128_print(16, true, true); }
VC_PROOF(u128_oct) { u128_print(8, false, false); }
VC_PROOF(u128_oct_pos) { u128_print(8, false, true); }

// ---- uint_t
template <unsigned N, typename B> struct Print {
    using S = spec<N, B>;
    using U = typename S::U;
    static typename U::div_t divmod(U x, U y) {
        U q = S::any("q");
        U r = std::uint8_t(vc_u8("r") & (N < 8u ? (1u << (N % 8u)) - 1u : 255u));
        step(S::val(x), S::val(y), S::val(q), S::val(r));
        return typename U::div_t{q, r};
    }
    static bool gt(U x, U y) { return S::val(x) > S::val(y); }      // proved by C05
    static bool eq(U x, U y) { return S::val(x) == S::val(y); }
    static void run(unsigned base, bool upper, bool pos) {
        vc_config("merge", 1);
        vc_config("unwind", 200);
        vc_config("unwind", 200);
        U const x = S::any("x");
        W const v = S::val(x);
        start(v, S::mask(), base, upper);
        Printed p;
        p.flags(fl(base, upper, pos));
        if (N < 4u + (base == 16u)) {     // a single digit
            g.d[0] = digit((unsigned) v, upper); g.n = 1; g.cur = 0; g.top = true;
        }
        auto & s = p.stream() << x;
        vc_assert(&s == &p.stream(), "operator<< returns the stream");
        check(p, 0, 0, v, base, upper, pos);
    }
};
#define R(N, B) namespace sharemind { using U_##N##_##B = uint_t<N, UT(B)>; \
    U_##N##_##B::div_t divMod(U_##N##_##B, U_##N##_##B); \
    bool operator>(U_##N##_##B, U_##N##_##B); bool operator==(U_##N##_##B, U_##N##_##B); } \
    extern "C" { struct { sharemind::U_##N##_##B::div_t (*a)(sharemind::U_##N##_##B, sharemind::U_##N##_##B), \
        (*b)(sharemind::U_##N##_##B, sharemind::U_##N##_##B); } \
        vc_replace_divmod_##N##_##B = { &sharemind::divMod, &Print<N, UT(B)>::divmod }; \
        struct { bool (*a)(sharemind::U_##N##_##B, sharemind::U_##N##_##B), (*b)(sharemind::U_##N##_##B, sharemind::U_##N##_##B); } \
        vc_replace_gt_##N##_##B = { &sharemind::operator>, &Print<N, UT(B)>::gt }, \
        vc_replace_eq_##N##_##B = { &sharemind::operator==, &Print<N, UT(B)>::eq }; } \
    VC_PROOF(print_dec_##N##_##B) { Print<N, UT(B)>::run(10, false, false); } \
    VC_PROOF(print_oct_##N##_##B) { Print<N, UT(B)>::run(8, true, true); } \
    VC_PROOF(print_hex_##N##_##B) { Print<N, UT(B)>::run(16, false, false); } \
    VC_PROOF(print_hexup_##N##_##B) { Print<N, UT(B)>::run(16, true, true); }
R(1,8) R(3,8) R(4,8) R(5,8) R(8,8) R(13,8) R(16,16) R(33,16) R(64,64) R(65,32) R(100,64) R(128,64)
