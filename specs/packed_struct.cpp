// PackedStruct and accessors: fields lie back to back in declaration order
#include "vc.h"
#include <sharemind/ConstPackedStructAccessor.h>
#include <sharemind/PackedStruct.h>
#include <sharemind/PackedStructAccessor.h>
#include <tuple>
using namespace sharemind;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
struct Pod { u8 a; u32 b; };
template <typename T> T arb(char const * n) { return vc_any<T>(n); }
template <> Pod arb<Pod>(char const *) { Pod p; std::memset(&p, 0, sizeof p); p.a = vc_u8("pa"); p.b = vc_u32("pb"); return p; }
template <typename T> bool same(T x, T y) { return x == y; }
template <> bool same<Pod>(Pod x, Pod y) { return (x.a == y.a) & (x.b == y.b); }

template <std::size_t I, typename ... Ts> struct Off;
template <typename T, typename ... Ts> struct Off<0, T, Ts...> { static constexpr std::size_t value = 0; };
template <> struct Off<0> { static constexpr std::size_t value = 0; };
template <std::size_t I, typename T, typename ... Ts> struct Off<I, T, Ts...> { static constexpr std::size_t value = sizeof(T) + Off<I - 1, Ts...>::value; };

template <typename ... Ts> struct Check {
    using S = PackedStruct<Ts...>;
    using A = PackedStructAccessor<Ts...>;
    using CA = ConstPackedStructAccessor<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    static constexpr std::size_t total = Off<N, Ts...>::value;
    template <std::size_t I> using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    static void const * v(void const * p) { return p; }

    template <std::size_t I> static void addresses(S & x, u8 * p) {
        vc_assert(v(x.template voidPtr<I>()) == p, "voidPtr<I> is base + sum of preceding sizes");
        vc_assert(v(x.template ptr<I>()) == p, "ptr<I>");
        E<I> t; std::memcpy(&t, p, sizeof t);
        vc_assert(same<E<I>>(static_cast<E<I>>(x.template ref<I>()), t), "ref<I>");
    }
    template <std::size_t I> static void writes(S & x, S const & c) {
        auto const n2 = arb<E<I>>("new2"), n = arb<E<I>>("new3");
        x.template ref<I>() = n2;
        vc_assert(same<E<I>>(c.template get<I>(), n2), "ref<I> assigns the field");
        *x.template ptr<I>() = n;
        vc_assert(same<E<I>>(c.template get<I>(), n), "ptr<I> assigns the field");
    }
    // (ptr, ref and voidPtr of the mutable accessor are ambiguous overloads and cannot be called)
    template <std::size_t I> static void addresses(A &, u8 *) {}
    template <std::size_t I> static void writes(A &, CA const &) {}
    template <std::size_t I, typename X, typename CX> static void field(X & x, CX const & c, u8 * base) {
        using T = E<I>;
        constexpr auto off = Off<I, Ts...>::value;
        static_assert(X::template ElemOffset<I>::value == off, "");
        vc_assert(v(c.template voidPtr<I>()) == base + off, "const voidPtr<I> is base + sum of preceding sizes");
        vc_assert(v(c.template constVoidPtr<I>()) == base + off, "constVoidPtr<I>");
        addresses<I>(x, base + off);
        vc_assert(v(c.template constPtr<I>()) == base + off, "constPtr<I>");
        T t; std::memcpy(&t, base + off, sizeof t);
        vc_assert(same<T>(x.template get<I>(), t), "get<I> reads the field");
        vc_assert(same<T>(c.template get<I>(), t), "const get<I>");
        vc_assert(same<T>(static_cast<T>(c.template cref<I>()), t), "cref<I>");
        auto const j = vc_u64("j");
        vc_assume(j < total);
        u8 const old = base[j];
        T const n = arb<T>("new");
        x.template set<I>(n);
        vc_assert(same<T>(x.template get<I>(), n), "get<I> after set<I> gives the value");
        vc_assert(vc_implies(j < off || j >= off + sizeof(T), base[j] == old), "set<I> changes no other byte");
        writes<I>(x, c);
        vc_assert(vc_implies(j < off || j >= off + sizeof(T), base[j] == old), "ref<I>, ptr<I> change no other byte");
    }
    template <typename X, typename CX, std::size_t ... Is>
    static void fields(X & x, CX const & c, u8 * base, std::index_sequence<Is...>) {
        int const dummy[] = { 0, (field<Is>(x, c, base), 0)... };
        (void) dummy;
    }
    template <typename X> static void sizes() {
        vc_assert(X::size() == total && X::staticSize() == total && X::minSizeInBytes() == total && X::maxSizeInBytes() == total,
                  "size is the sum of the field sizes");
        vc_assert(X::numFields() == N && X::numDynamicFields() == 0 && !X::hasDynamicFields(), "field counts");
    }
    static void run() {
        static_assert(sizeof(S) == total, "");
        sizes<S>(); sizes<A>(); sizes<CA>();
        S s;
        vc_havoc(&s, sizeof s, "s");
        u8 * const base = static_cast<u8 *>(static_cast<void *>(&s));
        vc_assert(s.data() == base && s.constData() == base && s.dataUint8() == base && s.dataUnsignedChar() == base
                  && v(s.dataChar()) == base && v(static_cast<S const &>(s).dataChar()) == base
                  && static_cast<S const &>(s).dataUint8() == base && s.constDataUint8() == base, "data() is the object's storage");
        vc_assert(s.endVoidPtr() == base + total && s.endConstVoidPtr() == base + total, "end is data + size");
        fields(s, static_cast<S const &>(s), base, std::make_index_sequence<N>());

        A a = s.refs();
        CA ca = s.crefs();
        CA const ca2(a);
        vc_assert(a.data() == base && ca.data() == base && ca2.constData() == base, "accessors refer to the struct's storage");
        vc_assert(a.endVoidPtr() == base + total && ca.endVoidPtr() == base + total, "accessor end");
        fields(a, ca, base, std::make_index_sequence<N>());

        S t(s);
        u8 const * const tb = t.dataUint8();
        auto const k = vc_u64("k");
        vc_assume(k < total);
        vc_assert(tb[k] == base[k] && t == s && !(t != s), "copies are equal byte for byte");
        vc_havoc(&t, sizeof t, "t");
        vc_instantiate(tb + k);
        bool const eq = t == s;
        vc_assert((t != s) == !eq, "!= is the negation of ==");
        vc_assert(vc_implies(tb[k] != base[k], !eq), "structs that differ in some byte compare unequal");
        vc_assert(vc_implies(eq, tb[k] == base[k]), "equal structs agree in every byte");
        vc_assert((a == s.refs()) && (CA(&t) == ca) == eq, "accessor comparison compares the bytes");
        vc_cover("end");
    }
    static void over_buffer() {   // accessors over an arbitrary, unaligned address of a larger buffer
        auto const len = vc_len("len"), off = vc_u64("off"), j = vc_u64("jj");
        vc_assume(len >= total && off <= len - total && j < len);
        auto * const buf = vc_array<u8>(len, "buf");
        u8 const old = buf[j];
        A a(buf + off);
        CA const c(buf + off);
        fields(a, c, buf + off, std::make_index_sequence<N>());
        vc_assert(vc_implies(j < off || j >= off + total, buf[j] == old), "bytes outside the struct are untouched");
        A b(nullptr);
        b = a;
        vc_assert(b.data() == a.data(), "accessor assignment rebinds");
        vc_cover("buffer end");
    }
};
#define P(n, ...) VC_PROOF(ps_##n) { Check<__VA_ARGS__>::run(); } VC_PROOF(ps_buf_##n) { Check<__VA_ARGS__>::over_buffer(); }
P(u8, u8) P(u8u32, u8, u32) P(u64u8u16, u64, u8, u16) P(five, u16, u8, u64, u8, u32) P(same3, u32, u32, u32)
P(pod, u8, Pod, u8, std::int64_t) P(seven, char, short, int, long, char, short, u8)
