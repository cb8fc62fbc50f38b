// uint_t<N, B>: divMod, / and % are Euclidean division
#include "uint_t.h"

// small widths: the N iterations are unrolled and checked directly
template <unsigned N, typename B> void div_small() {
    using S = spec<N, B>;
    vc_config("merge", 1);
    auto x = S::any("x"), y = S::any("y");
    auto const a = S::val(x), b = S::val(y);
    vc_assume(b != 0);
    auto r = divMod(x, y);
    vc_assert(S::wf(r.quot) & S::wf(r.rem), "unused bits of quotient and remainder are zero");
    vc_assert(S::val(r.rem) < b, "x % y < y");
    vc_assert(S::val(r.quot) * b + S::val(r.rem) == a && S::val(r.quot) <= a, "x == q * y + r");
    vc_cover("div_small end");
}
template <unsigned N, typename B> struct Div {
    using S = spec<N, B>;
    using U = typename S::U;
    using W = unsigned _BitInt(256);
    static W gX, gY;
    static bool inv(void const * qp, void const * rp, std::uint64_t k) {
        auto const & qu = *static_cast<U const *>(qp);
        auto const & ru = *static_cast<U const *>(rp);
        W q = S::val(qu) & S::mask(), r = S::val(ru) & S::mask();   // (wf below: the masks change nothing)
        W qk = k == 0 ? W(0) : q >> (N - k);
        W xk = k == 0 ? W(0) : gX >> (N - k);
        bool low = k == 0 ? q == 0 : (k == N ? true : (q & ((W(1) << (N - k)) - 1u)) == 0);
        return S::wf(qu) & S::wf(ru) & (r < gY) & (r <= xk) & low & (qk * gY + r == xk);
    }
    static void run() {
        vc_config("limb", 128);
        vc_config("unfold", 1);
        vc_config("unwind", 4 * S::nb);
        vc_config("step", 1);
        vc_hint_obj2(&inv, sizeof(U));
        auto x = S::any("x"), y = S::any("y");
        gX = S::val(x) & S::mask(); gY = S::val(y) & S::mask();
        vc_assume(gY != 0);
        auto r = divMod(x, y);
        W const q = S::val(r.quot) & S::mask(), m = S::val(r.rem) & S::mask();
        vc_assert(S::wf(r.quot) & S::wf(r.rem), "unused bits of quotient and remainder are zero");
        vc_assert(m < gY, "x % y < y");
        vc_assert(q * gY + m == gX, "x == q * y + r");
        vc_cover("div end");
    }
};
template <unsigned N, typename B> unsigned _BitInt(256) Div<N, B>::gX;
template <unsigned N, typename B> unsigned _BitInt(256) Div<N, B>::gY;

// contracts of the operators divMod is built from; proved for these instantiations by C04 and C05
template <unsigned N, typename B> struct Ops {
    using S = spec<N, B>;
    using U = typename S::U;
    using V = typename S::V;
    static U make(V v) {
        U r;
        for (unsigned i = 0; i < S::nb; ++i)
            r.begin()[i] = B(v >> (i * S::bb));
        return r;
    }
    static U shl(U x, std::uint64_t s) {
        vc_assert(s < N, "requires: shift amount below N");
        return make((S::val(x) << s) & S::mask());
    }
    static U shr(U x, std::uint64_t s) {
        vc_assert(s < N, "requires: shift amount below N");
        vc_assert(S::wf(x), "requires: class invariant");
        return make(S::val(x) >> s);
    }
    static U add(U x, U y) { return make((S::val(x) + S::val(y)) & S::mask()); }
    static U sub(U x, U y) { return make((S::val(x) - S::val(y)) & S::mask()); }
    static U band(U x, U y) { return make(S::val(x) & S::val(y)); }
    static U bor(U x, U y) { return make(S::val(x) | S::val(y)); }
    static bool nt(U x) { return S::val(x) == 0; }
    static bool eq(U x, U y) { return S::val(x) == S::val(y); }
    static bool ge(U x, U y) { return S::val(x) >= S::val(y); }
};
#define OPS(N, B) namespace sharemind { \
    using U_##N##_##B = uint_t<N, UT(B)>; using O_##N##_##B = Ops<N, UT(B)>; \
    U_##N##_##B operator<<(U_##N##_##B, std::uint64_t); \
    U_##N##_##B operator>>(U_##N##_##B, std::uint64_t); \
    U_##N##_##B operator+(U_##N##_##B, U_##N##_##B); \
    U_##N##_##B operator-(U_##N##_##B, U_##N##_##B); \
    U_##N##_##B operator&(U_##N##_##B, U_##N##_##B); \
    U_##N##_##B operator|(U_##N##_##B, U_##N##_##B); \
    bool operator!(U_##N##_##B); \
    bool operator==(U_##N##_##B, U_##N##_##B); \
    bool operator>=(U_##N##_##B, U_##N##_##B); \
    } extern "C" { using namespace sharemind; \
    struct { U_##N##_##B (*a)(U_##N##_##B, std::uint64_t), (*b)(U_##N##_##B, std::uint64_t); } \
        vc_replace_shl_##N##_##B = { &sharemind::operator<<, &O_##N##_##B::shl }, \
        vc_replace_shr_##N##_##B = { &sharemind::operator>>, &O_##N##_##B::shr }; \
    struct { U_##N##_##B (*a)(U_##N##_##B, U_##N##_##B), (*b)(U_##N##_##B, U_##N##_##B); } \
        vc_replace_add_##N##_##B = { &sharemind::operator+, &O_##N##_##B::add }, \
        vc_replace_sub_##N##_##B = { &sharemind::operator-, &O_##N##_##B::sub }, \
        vc_replace_and_##N##_##B = { &sharemind::operator&, &O_##N##_##B::band }, \
        vc_replace_or_##N##_##B = { &sharemind::operator|, &O_##N##_##B::bor }; \
    struct { bool (*a)(U_##N##_##B), (*b)(U_##N##_##B); } vc_replace_not_##N##_##B = { &sharemind::operator!, &O_##N##_##B::nt }; \
    struct { bool (*a)(U_##N##_##B, U_##N##_##B), (*b)(U_##N##_##B, U_##N##_##B); } \
        vc_replace_eq_##N##_##B = { &sharemind::operator==, &O_##N##_##B::eq }, \
        vc_replace_ge_##N##_##B = { &sharemind::operator>=, &O_##N##_##B::ge }; }
OPS(13,8) OPS(33,16) OPS(65,32) OPS(100,64) OPS(128,64)
#define DS(N, B) VC_PROOF(div_small_##N##_##B) { div_small<N, UT(B)>(); }
#define DL(N, B) VC_PROOF(div_##N##_##B) { Div<N, UT(B)>::run(); }
DS(1,8) DS(1,64) DS(2,8) DS(3,8) DS(5,8)
DL(8,8) DL(16,16) DL(32,32) DL(64,64) DL(13,8) DL(33,16) DL(65,32) DL(100,64) DL(128,64)
