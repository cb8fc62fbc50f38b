// AlignedAllocator and UninitializedDynamicArray: size, alignment and ownership of the storage they hand out.
#include <cstdlib>
#include <memory>
#include <new>
#include <utility>
#include "vc.h"
#define private public
#define protected public
#include <sharemind/AlignedAllocator.h>
#include <sharemind/UninitializedDynamicArray.h>
#undef private
#undef protected
using u64 = std::uint64_t;
static bool alignedTo(void const * p, u64 a) {
    return vc_is_symbolic() ? vc_obj_offset(p) == 0 && vc_obj_align(p) % a == 0 : reinterpret_cast<u64>(p) % a == 0;
}
#ifndef VC_NATIVE
extern "C" int vc_contract_posix_memalign(void ** p, std::size_t a, std::size_t n) {
    bool const ok = a >= sizeof(void *) && (a & (a - 1u)) == 0;
    vc_assert(ok, "posix_memalign needs a power of two that is a multiple of sizeof(void *)");
    if (n >= (u64(1) << 47) || vc_bool("noMemory")) return 12;
    *p = vc_alloc(n, a);
    return 0;
}
#endif
template <typename T> static void allocator() {
    using A = sharemind::AlignedAllocator<T>;
    u64 const n = vc_u64("n");
    if (!vc_is_symbolic()) vc_assume(n < (u64(1) << 20) || n > (u64(1) << 50));
    A a, b(a), c(std::move(b)); sharemind::AlignedAllocator<char> o; A d(o);
    vc_assert(a == d && !(a != c), "all of them are equal");
    bool failed = false;
    T * p = nullptr;
    try { p = A::allocate(n); } catch (std::bad_alloc const &) { failed = true; }
    if (failed) {
        vc_assert(vc_live_heap() == 0, "a failed allocation leaves nothing");
        return;
    }
    vc_assert(n <= ~u64(0) / sizeof(T), "a size that overflows is refused");
    vc_assert(p != nullptr && alignedTo(p, alignof(T)), "aligned as the type needs");
    vc_assert(vc_obj_size(p) >= n * sizeof(T), "room for n elements");
    c.deallocate(p, n);
    vc_assert(vc_live_heap() == 0, "deallocate frees it");
    vc_cover("allocator");
}
struct alignas(32) Over { unsigned char x[96]; };
struct alignas(2) Under { unsigned char x[6]; };
VC_PROOF(allocator_u8) { allocator<unsigned char>(); }
VC_PROOF(allocator_under) { allocator<Under>(); }
VC_PROOF(allocator_int) { allocator<int>(); }
VC_PROOF(allocator_u64) { allocator<u64>(); }
VC_PROOF(allocator_ld) { allocator<long double>(); }
VC_PROOF(allocator_over) { allocator<Over>(); }
template <u64 ALIGN> static void members() {
    struct alignas(ALIGN) S { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(ALIGN) unsigned char x[ALIGN]; };
    unsigned const op = vc_u8("op");
    vc_assume(op < 4);
    S * p = nullptr;
    bool failed = false;
    try {
        switch (op) {
        case 0: p = new S; break;
        case 1: p = new (std::nothrow) S; failed = !p; break;
        case 2: p = new S[3]; break;
        default: p = new (std::nothrow) S[3]; failed = !p;
        }
    } catch (std::bad_alloc const &) { failed = true; }
    if (!failed) {
        vc_assert(p && alignedTo(p, ALIGN) && vc_obj_size(p) >= sizeof(S) * (op < 2 ? 1 : 3), "new gives aligned storage of the size asked for");
        if (op < 2) delete p; else delete[] p;
    }
    vc_assert(vc_live_heap() == 0, "delete frees it, and a failure leaves nothing");
    vc_cover("members");
}
VC_PROOF(members_1) { members<1>(); }
VC_PROOF(members_8) { members<8>(); }
VC_PROOF(members_64) { members<64>(); }

template <typename T> static void array() {
    using A = sharemind::UninitializedDynamicArray<T>;
    vc_config("leakbase", 1);
    u64 const n = vc_len("n"), m = vc_len("m"), i = vc_ghost_u64();
    vc_assume(n < (u64(1) << 32) && m < (u64(1) << 32));
    {
        A a(n), b(m), e;
        vc_assert(e.size() == 0 && e.empty() && e.begin() == e.end() && e.begin() == nullptr, "empty by default");
        A const & ca = a;
        vc_assert(a.size() == n && a.empty() == (n == 0), "the size asked for");
        vc_assert(vc_obj_size(a.data()) >= n * sizeof(T) && alignedTo(a.data(), alignof(T)), "room for that many elements");
        vc_assert(a.begin() == a.data() && a.end() == a.data() + n && ca.begin() == a.begin() && ca.end() == a.end() && a.cbegin() == a.begin() &&
                  a.cend() == a.end() && ca.data() == a.data(), "the range of elements");
        if (i < n) {
            vc_assert(&a[i] == a.data() + i && &ca[i] == &a[i] && a.data(i) == &a[i] && ca.data(i) == &a[i], "element i");
            a[i] = T();
        }
        T * const pa = a.data();
        T * const pb = b.data();
        A c(std::move(a));
        vc_assert(c.size() == n && c.data() == pa && a.size() == 0 && a.data() == nullptr, "moving transfers the storage");
        A & r = (c = std::move(b));
        vc_assert(&r == &c && c.size() == m && c.data() == pb && b.size() == 0 && b.data() == nullptr, "so does move assignment");
        vc_assert(!vc_is_symbolic() || n == 0 || !vc_is_live(pa), "and frees the storage replaced");
    }
    vc_assert(vc_live_heap() == 0, "all storage is freed");
    vc_cover("array");
}
VC_PROOF(array_u8) { array<unsigned char>(); }
VC_PROOF(array_u64) { array<u64>(); }
struct Big { u64 a[3]; };
VC_PROOF(array_big) { array<Big>(); }
