// DynamicPackedStruct: run-time sized fields, back to back in one exactly sized allocation
#include "vc.h"
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <tuple>
using namespace sharemind;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using R = DynamicFieldPlaceholder<>;
template <typename T> using A = DynamicVectorFieldPlaceholder<T>;

template <typename T> struct F { static constexpr std::size_t k = sizeof(T); static constexpr bool dyn = false; using V = T; };
template <std::size_t a, std::size_t b> struct F<DynamicFieldPlaceholder<a, b>> { static constexpr std::size_t k = 1; static constexpr bool dyn = true; using V = u8; };
template <typename T, std::size_t a, std::size_t b> struct F<DynamicVectorFieldPlaceholder<T, a, b>> {
    static constexpr std::size_t k = sizeof(T); static constexpr bool dyn = true; using V = T; };
static_assert(std::is_same<MaybeDynamicPackedStruct<u8, R>, DynamicPackedStruct<u8, R>>::value, "");
static_assert(std::is_same<MaybeDynamicPackedStruct<u8, u16>, PackedStruct<u8, u16>>::value, "");

// field layout computed independently: off[i] = sum of the sizes before field i; off[N] = total
template <typename ... Ts> struct Layout {
    static constexpr std::size_t N = sizeof...(Ts);
    u64 off[N + 1], len[N];
    Layout(u64 const * sizes) {
        constexpr std::size_t k[] = { F<Ts>::k... };
        constexpr bool dyn[] = { F<Ts>::dyn... };
        u64 o = 0; unsigned d = 0;
        for (unsigned i = 0; i < N; ++i) {
            off[i] = o;
            len[i] = dyn[i] ? k[i] * sizes[d++] : k[i];
            o += len[i];
        }
        off[N] = o;
    }
};
template <typename ... Ts> struct Check {
    using S = DynamicPackedStruct<Ts...>;
    using L = Layout<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    static constexpr std::size_t D = S::numDynamicFields();
    template <std::size_t I> using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    static void const * v(void const * p) { return p; }
    static void sizes(u64 * s) {
        for (unsigned i = 0; i < D; ++i) {
            s[i] = vc_len("size");
            vc_assume(s[i] < (u64(1) << 32));
        }
    }
    template <std::size_t ... Is> static S make(u64 const * s, std::index_sequence<Is...>) { return S(s[Is]...); }
    static S make(u64 const * s) { return make(s, std::make_index_sequence<D>()); }

    template <std::size_t I> static void content(S & s, L const & l, u8 * base, u64 j, std::false_type) {
        using T = E<I>;
        u64 const off = l.off[I];
        T t; std::memcpy(&t, base + off, sizeof t);
        S const & c = s;
        vc_assert(s.template get<I>() == t && c.template get<I>() == t, "get<I> reads the field");
        vc_assert(static_cast<T>(c.template cref<I>()) == t && static_cast<T>(s.template ref<I>()) == t, "ref<I>, cref<I>");
        u8 const old = base[j];
        T const n = vc_any<T>("new");
        s.template set<I>(n);
        vc_assert(c.template get<I>() == n, "get<I> after set<I>");
        T const n2 = vc_any<T>("new2");
        s.template ref<I>() = n2;
        vc_assert(c.template get<I>() == n2, "ref<I> assigns the field");
        vc_assert(vc_implies(j < off || j >= off + sizeof(T), base[j] == old), "set<I> changes no other byte");
    }
    template <std::size_t I> static void content(S & s, L const & l, u8 * base, u64 j, std::true_type) {
        elems<I>(s, l, base, j, static_cast<E<I> *>(nullptr));
    }
    template <std::size_t I, std::size_t a, std::size_t b>
    static void elems(S &, L const &, u8 *, u64, DynamicFieldPlaceholder<a, b> *) {}
    template <std::size_t I, typename T, std::size_t a, std::size_t b>
    static void elems(S & s, L const & l, u8 * base, u64 j, DynamicVectorFieldPlaceholder<T, a, b> *) {
        u64 const n = l.len[I] / sizeof(T), i = vc_u64("i");
        if (i >= n)
            return;
        u64 const off = l.off[I] + i * sizeof(T);
        u8 const old = base[j];
        T const w = vc_any<T>("w");
        s.template ptr<I>()[i] = w;
        T t; std::memcpy(&t, base + off, sizeof t);
        vc_assert(t == w && static_cast<T>(s.template constPtr<I>()[i]) == w, "ptr<I>[i] is element i of the vector field");
        vc_assert(vc_implies(j < off || j >= off + sizeof(T), base[j] == old), "writing an element changes no other byte");
        vc_cover("elements");
    }
    template <std::size_t I> static void field(S & s, L const & l, u8 * base, u64 j) {
        S const & c = s;
        vc_assert(c.template elemOffset<I>() == l.off[I], "elemOffset<I> is the sum of the preceding sizes");
        vc_assert(c.template voidPtr<I>() == base + l.off[I] && c.template constVoidPtr<I>() == base + l.off[I], "voidPtr<I>");
        vc_assert(v(c.template ptr<I>()) == base + l.off[I] && v(c.template constPtr<I>()) == base + l.off[I], "ptr<I>");
        content<I>(s, l, base, j, std::integral_constant<bool, F<E<I>>::dyn>());
    }
    template <std::size_t ... Is> static void fields(S & s, L const & l, u8 * base, u64 j, std::index_sequence<Is...>) {
        int const d[] = { 0, (field<Is>(s, l, base, j), 0)... };
        (void) d;
    }
    static void run() {
        vc_config("merge", 1);
        u64 sz[D]; sizes(sz);
        L const l(sz);
        auto const live = vc_live_heap();
        {
            S s = make(sz);
            u8 * const base = static_cast<u8 *>(s.data());
            vc_assert(s.size() == l.off[N], "size() is the sum of all field sizes");
            vc_assert(vc_obj_size(base) == l.off[N] && vc_obj_offset(base) == 0, "the allocation has exactly size() bytes");
            vc_havoc(base, l.off[N], "content");
            vc_assert(s.endVoidPtr() == base + l.off[N] && s.endConstVoidPtr() == base + l.off[N], "end is data + size");
            auto const j = vc_u64("j");
            vc_assume(j < l.off[N]);
            fields(s, l, base, j, std::make_index_sequence<N>());
            vc_cover("fields");
        }
        vc_assert(vc_live_heap() == live, "destruction frees the storage");
    }
    static bool eqlayout(S const & s, L const & l) { return s.size() == l.off[N] && s.template elemOffset<N - 1>() == l.off[N - 1]; }
    static void values() {
        vc_config("merge", 1);
        u64 sz[D], sz2[D]; sizes(sz); sizes(sz2);
        L const l(sz), l2(sz2);
        auto const live = vc_live_heap();
        auto const j = vc_u64("j");
        vc_assume(j < l.off[N]);
        {
            S s = make(sz);
            u8 * const base = static_cast<u8 *>(s.data());
            vc_havoc(base, l.off[N], "content");
            u8 const bj = base[j];
            S const c(static_cast<S const &>(s));
            vc_assert(c.data() != base && c.data() != nullptr, "a copy has its own storage");
            vc_instantiate(static_cast<u8 const *>(c.data()) + j);
            vc_assert(eqlayout(c, l) && static_cast<u8 const *>(c.data())[j] == bj, "a copy has the same layout and bytes");
            bool const eq = c == s;
            vc_assert(vc_implies(base[j] != bj, !eq) && (c != s) == !eq, "== compares bytes");
            base[j] = vc_u8("other");
            vc_assert(static_cast<u8 const *>(c.data())[j] == bj, "writing to the original leaves the copy alone");
            vc_assert(vc_implies(base[j] != bj, !(c == s) && c != s), "structs that differ in a byte compare unequal");

            S a = make(sz2);
            auto & ar = (a = c);
            vc_assert(&ar == &a, "copy assignment returns the object");
            vc_assert(a.data() != c.data() && eqlayout(a, l) && static_cast<u8 const *>(a.data())[j] == bj, "copy assignment");
            vc_assert(vc_obj_size(a.data()) >= l.off[N], "storage is large enough after copy assignment");
            auto & sr = (a = static_cast<S const &>(a));
            vc_assert(&sr == &a && eqlayout(a, l) && static_cast<u8 const *>(a.data())[j] == bj, "copy self-assignment");
            void * const ap = a.data();
            S m(std::move(a));
            vc_assert(m.data() == ap && a.data() == nullptr && eqlayout(m, l), "move construction transfers the storage");
            S m2 = make(sz2);
            auto & mr = (m2 = std::move(m));
            vc_assert(&mr == &m2 && m2.data() == ap && m.data() == nullptr && eqlayout(m2, l), "move assignment transfers the storage");
            vc_assert(static_cast<u8 const *>(m2.data())[j] == bj, "moves keep the bytes");
            m = static_cast<S const &>(m2);
            vc_assert(m.data() != ap && eqlayout(m, l) && static_cast<u8 const *>(m.data())[j] == bj, "copy assignment to a moved-from struct");
            S e(std::move(m));
            m2 = static_cast<S const &>(m);
            vc_assert(m2.data() == nullptr, "copy assignment from a moved-from struct");
            S ec(static_cast<S const &>(m));
            vc_assert(ec.data() == nullptr, "copy construction from a moved-from struct");
            auto p = e.release();
            vc_assert(p.get() != nullptr && e.data() == nullptr && static_cast<u8 const *>(p.get())[j] == bj, "release hands over the storage");
            vc_cover("values");
        }
        vc_assert(vc_live_heap() == live, "every allocation is freed exactly once");
    }
    static void oom() {     // allocation failure leaves nothing behind and keeps the assigned-to object
        vc_config("merge", 1);
        u64 sz[D], sz2[D]; sizes(sz); sizes(sz2);
        L const l2(sz2);
        auto const live = vc_live_heap();
        try {
            S a = make(sz2), b = make(sz);
            vc_config("alloc_may_fail", 1);
            void * const ap = a.data();
            vc_havoc(b.data(), b.size(), "content");
            try { a = static_cast<S const &>(b); vc_cover("assigned"); }
            catch (std::bad_alloc const &) {
                vc_assert(a.data() == ap && eqlayout(a, l2), "a failed copy assignment leaves the object as it was");
                vc_cover("assignment failed");
            }
        } catch (std::bad_alloc const &) { }
        vc_config("alloc_may_fail", 0);
        vc_assert(vc_live_heap() == live, "no leak");
    }
};
VC_PROOF(valid_sizes) {
    using I = DynamicPackingInfo<u8, DynamicFieldPlaceholder<2, 9>, DynamicVectorFieldPlaceholder<u32, 0, 5>, u16>;
    u64 const a = vc_u64("a"), b = vc_u64("b");
    vc_assert(I::validSizes(a, b) == (a >= 2 && a <= 9 && b <= 5), "validSizes checks each dynamic field against its bounds");
    vc_assert(I::minSizeInBytes() == 1 + 2 + 0 + 2 && I::maxSizeInBytes() == 1 + 9 + 20 + 2, "minimal and maximal sizes");
    vc_assert(I::numFields() == 4 && I::numDynamicFields() == 2 && I::hasDynamicFields(), "field counts");
    vc_assume(a < (u64(1) << 40) && b < (u64(1) << 40));
    vc_assert(I::sizeInBytes(a, b) == 1 + a + 4 * b + 2, "sizeInBytes");
    vc_cover("valid");
}
#define P(n, ...) VC_PROOF(dps_##n) { Check<__VA_ARGS__>::run(); } VC_PROOF(dps_val_##n) { Check<__VA_ARGS__>::values(); } \
    VC_PROOF(dps_oom_##n) { Check<__VA_ARGS__>::oom(); }
P(r, u8, R) P(a, A<u32>, u16) P(test, std::int64_t, char, R, char, A<std::int32_t>, u16) P(tail, A<u64>, u8, u16, u32) P(three, R, A<u16>, u8, R)
