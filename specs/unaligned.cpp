// UnalignedReference / UnalignedPointer: typed access at arbitrary addresses
#include "vc.h"
#include <sharemind/ConstUnalignedReference.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
using namespace sharemind;
struct Pod { std::uint8_t a; std::uint64_t b; };
inline bool same(Pod const & x, Pod const & y) { return (x.a == y.a) & (x.b == y.b); }
inline bool same(std::uint64_t x, std::uint64_t y) { return x == y; }
template <typename T> T arb(char const * n) { return vc_any<T>(n); }
template <> Pod arb<Pod>(char const *) { return Pod{vc_u8("pa"), vc_u64("pb")}; }

template <typename T> void access() {
    auto const len = vc_len("len"), off = vc_u64("off"), j = vc_u64("j");
    vc_assume(len >= sizeof(T) && off <= len - sizeof(T) && j < len);
    auto * const buf = vc_array<unsigned char>(len, "buf");
    unsigned char const oldj = buf[j];
    T const v = arb<T>("v");
    UnalignedReference<T> r(buf + off);
    T direct; std::memcpy(&direct, buf + off, sizeof(T));
    vc_assert(same(static_cast<T>(r), direct), "reading gives the bytes stored there");
    UnalignedReference<T const> cr(buf + off);
    vc_assert(same(static_cast<T>(cr), direct), "const reading gives the bytes stored there");
    ConstUnalignedReference<T> cr2(buf + off);
    vc_assert(same(static_cast<T>(cr2), direct), "ConstUnalignedReference");
    auto & rr = (r = v);
    vc_assert(&rr == &r, "assignment returns the reference");
    vc_assert(same(static_cast<T>(r), v), "reading back the assigned value");
    std::memcpy(&direct, buf + off, sizeof(T));
    vc_assert(same(direct, v), "the value's bytes were stored at the address");
    vc_assert(vc_implies(j < off || j >= off + sizeof(T), buf[j] == oldj), "no other byte changes");
    vc_cover("access");
}
template <typename T, typename V> void convert() {
    auto const len = vc_len("len"), off = vc_u64("off"), j = vc_u64("j");
    vc_assume(len >= sizeof(T) && off <= len - sizeof(T) && j < len);
    auto * const buf = vc_array<unsigned char>(len, "buf");
    unsigned char const oldj = buf[j];
    V const v = vc_any<V>("v");
    UnalignedReference<T> r(buf + off);
    r = v;
    vc_assert(static_cast<T>(r) == static_cast<T>(v), "assignment converts the value to T");
    vc_assert(vc_implies(j < off || j >= off + sizeof(T), buf[j] == oldj), "no other byte changes");
    vc_cover("convert");
}
template <typename T> void pointer() {
    // p at element i of an array of n elements starting at an arbitrary (unaligned) offset
    auto const n = vc_len("n"), pad = vc_u64("pad"), i = vc_u64("i"), k = vc_u64("k");
    vc_assume(n < (1u << 30) && pad <= 64 && i <= n && k <= n);
    auto * const buf = vc_array<unsigned char>(n * sizeof(T) + 64u, "buf");
    auto * const base = buf + pad;
    auto at = [&](std::uint64_t e) { return static_cast<void *>(base + e * sizeof(T)); };
    using P = UnalignedPointer<T>;
    P const p(at(i)), q(at(k));
    auto raw = [](P const & x) { return static_cast<void *>(x); };
    vc_assert(raw(p) == at(i), "construction and conversion keep the address");
    vc_assert(q - p == std::ptrdiff_t(k) - std::ptrdiff_t(i), "difference counts elements");
    UnalignedPointer<T const> const cq(at(k));
    vc_assert(cq - p == std::ptrdiff_t(k) - std::ptrdiff_t(i), "difference with a const pointer");
    vc_assert((p == q) == (i == k), "==");
    vc_assert((p != q) == (i != k), "!=");
    vc_assert((p < q) == (i < k), "<");
    vc_assert((p <= q) == (i <= k), "<=");
    vc_assert((p > q) == (i > k), ">");
    vc_assert((p >= q) == (i >= k), ">=");
    vc_assert((p == cq) == (i == k) && (p < cq) == (i < k), "mixed constness");
    vc_assert(static_cast<bool>(p), "non-null is true");
    vc_assert(!static_cast<bool>(P(nullptr)), "null is false");
    if (k >= i) {
        auto const d = k - i;
        vc_assert(raw(p + d) == at(k), "p + n");
        vc_assert(raw(d + p) == at(k), "n + p");
        P a(p); auto & ar = (a += d);
        vc_assert(raw(a) == at(k) && &ar == &a, "p += n");
        vc_assert(raw(q - d) == at(i), "p - n");
        P b(q); auto & br = (b -= d);
        vc_assert(raw(b) == at(i) && &br == &b, "p -= n");
        vc_cover("k >= i");
    }
    if (i < n) {
        P a(p);
        auto & ar = ++a;
        vc_assert(&ar == &a && raw(a) == at(i + 1u), "++p");
        auto & br = --a;
        vc_assert(&br == &a && raw(a) == at(i), "--p");
        P const o = a++;
        vc_assert(raw(o) == at(i) && raw(a) == at(i + 1u), "p++");
        P const o2 = a--;
        vc_assert(raw(o2) == at(i + 1u) && raw(a) == at(i), "p--");
        T const v = arb<T>("v");
        *a = v;
        T got; std::memcpy(&got, at(i), sizeof(T));
        vc_assert(same(got, v), "*p writes element i");
        vc_assert(same(static_cast<T>(*p), v), "*p reads element i");
        if (k <= i) {
            vc_assert(same(static_cast<T>(q[i - k]), v), "p[n] reads element n");
            T const w = arb<T>("w");
            q[i - k] = w;
            vc_assert(same(static_cast<T>(*p), w), "p[n] writes element n");
            vc_cover("k <= i");
        } else if (k < n) {
            T const w = arb<T>("w");
            *q = w;
            vc_assert(same(static_cast<T>(*p), v), "other elements keep their value");
            a[0] = q[0];
            vc_assert(same(static_cast<T>(*p), w), "element to element assignment copies the value");
            vc_cover("k > i");
        }
        vc_cover("i < n");
    }
    P c(p); c = q;
    vc_assert(c == q, "assignment");
    vc_cover("pointer");
}
#define T1(n, T) VC_PROOF(access_##n) { access<T>(); } VC_PROOF(pointer_##n) { pointer<T>(); }
T1(u8, std::uint8_t) T1(u16, std::uint16_t) T1(u32, std::uint32_t) T1(u64, std::uint64_t) T1(pod, Pod)
VC_PROOF(convert_64_8) { convert<std::uint64_t, std::uint8_t>(); }
VC_PROOF(convert_32_16) { convert<std::uint32_t, std::uint16_t>(); }
VC_PROOF(convert_8_64) { convert<std::uint8_t, std::uint64_t>(); }
VC_PROOF(convert_s64_s32) { convert<std::int64_t, std::int32_t>(); }
