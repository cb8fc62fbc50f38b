// BitVec over a store of blocks which is a contract of std::vector<Block>: a buffer of any size.
#include <algorithm>
#include <cassert>
#include <iterator>
#include "vc.h"
#define private public
#define protected public
#include <sharemind/BitVector.h>
#undef private
#undef protected
using u64 = std::uint64_t;
static u64 capacity;            // more than any sequence of operations here needs
template <typename B> struct Store {
    using value_type = B; using size_type = std::size_t; using iterator = B *; using const_iterator = B const *;
    using reference = B &; using const_reference = B const &; using difference_type = std::ptrdiff_t;
    B * p; std::size_t n;
    static B * fresh() { return vc_array<B>(capacity, "blocks"); }
    Store() : p(fresh()), n(0) {}
    explicit Store(std::allocator<B> const &) : p(fresh()), n(0) {}
    Store(std::size_t k, B v, std::allocator<B> const & = std::allocator<B>()) : p(fresh()), n(k) {
        vc_assume(k <= capacity);
        vc_assert(v == 0 || v == B(~B(0)), "filled with zeros or ones");
        __builtin_memset(p, v ? 0xff : 0, k * sizeof(B));
    }
    Store(Store && o) noexcept : p(o.p), n(o.n) { o.p = fresh(); o.n = 0; }
    Store & operator=(Store && o) noexcept { if (this != &o) { p = o.p; n = o.n; o.p = fresh(); o.n = 0; } return *this; }
    Store(Store const &) = delete;
    void swap(Store & o) { std::swap(p, o.p); std::swap(n, o.n); }
    iterator begin() { return p; }
    iterator end() { return p + n; }
    const_iterator begin() const { return p; }
    const_iterator end() const { return p + n; }
    std::size_t size() const { return n; }
    bool empty() const { return n == 0; }
    B & operator[](std::size_t i) { vc_assert(i < n, "block index in range"); return p[i]; }
    B const & operator[](std::size_t i) const { vc_assert(i < n, "block index in range"); return p[i]; }
    B & back() { vc_assert(n > 0, "back() of a non-empty store"); return p[n - 1u]; }
    B const & back() const { vc_assert(n > 0, "back() of a non-empty store"); return p[n - 1u]; }
    B * data() { return p; }
    B const * data() const { return p; }
    void clear() { n = 0; }
    void push_back(B v) { vc_assume(n < capacity); p[n++] = v; }
    void pop_back() { vc_assert(n > 0, "pop_back() of a non-empty store"); --n; }
    void resize(std::size_t k) {
        vc_assume(k <= capacity);
        if (k > n) __builtin_memset(p + n, 0, (k - n) * sizeof(B));
        n = k;
    }
    std::allocator<B> get_allocator() const { return std::allocator<B>(); }
};
template <typename B> using BV = sharemind::BitVec<B, std::allocator<B>, Store<B>>;
template <typename B> constexpr u64 W() { return 8u * sizeof(B); }
template <typename B> static u64 count(u64 bits) { return bits / W<B>() + (bits % W<B>() != 0); }
// any bit vector of any size: its excess bits are arbitrary too
template <typename B> static BV<B> any(u64 n, char const * name) {
    BV<B> x(n);
    vc_havoc(x.m_blocks.p, count<B>(n) * sizeof(B), name);
    return x;
}
template <typename B> static bool bitOf(B const * p, u64 i) { return (p[i / W<B>()] >> (i % W<B>())) & 1u; }
template <typename B> static bool get(BV<B> const & x, u64 i) { return bitOf(x.m_blocks.p, i); }
template <typename B> static bool wf(BV<B> const & x) { return x.m_blocks.n == count<B>(x.m_num_bits); }
static u64 n, j;
static void start() {
    capacity = vc_len("capacity"); n = vc_len("n"); j = vc_ghost_u64();
    if (!vc_is_symbolic()) { capacity = 4096; n %= 2048; }
    vc_assume(n < (u64(1) << 40) && capacity < (u64(1) << 40));
}
template <typename B> static void access() {
    start();
    BV<B> x = any<B>(n, "x");
    BV<B> const & cx = x;
    vc_assert(x.size() == n && x.empty() == (n == 0) && wf(x), "the size");
    u64 const i = vc_u64("i");
    bool const v = vc_bool("v"), isIn = i < n;
    bool thrown = false, got = false;
    try { got = cx.at(i); } catch (std::out_of_range const &) { thrown = true; }
    vc_assert(thrown == !isIn, "at() throws exactly when the index is out of range");
    thrown = false;
    try { (void) x.at(i); } catch (std::out_of_range const &) { thrown = true; }
    vc_assert(thrown == !isIn, "at() throws exactly when the index is out of range");
    vc_assume(isIn);
    bool const was = get(x, i), other = j < n && get(x, j);
    vc_assert(got == was && cx[i] == was && x[i] == was && (~x[i]) == !was && bool(x.at(i)) == was, "reading a bit");
    vc_assert(cx.front() == get(x, 0) && cx.back() == get(x, n - 1u), "the first and the last bit");
    bool want = v;
    unsigned const op = vc_u8("op");
    vc_assume(op < 8);
    switch (op) {
    case 0: x[i] = v; break;
    case 1: x[i] |= v; want = was | v; break;
    case 2: x[i] &= v; want = was & v; break;
    case 3: x[i] ^= v; want = was ^ v; break;
    case 4: x[i] -= v; want = was & !v; break;
    case 5: x[i].flip(); want = !was; break;
    case 6: x.at(i) = v; break;
    default: if (j < n) { x[i] = x[j]; want = other; } else { x[i] = v; }
    }
    vc_assert(get(x, i) == want, "writing a bit");
    if (j < n && j != i) vc_assert(get(x, j) == other, "changes no other bit");
    vc_assert(x.size() == n && wf(x), "nor the size");
    vc_cover("access");
}
VC_PROOF(access_u64) { access<std::uint64_t>(); }
VC_PROOF(access_u8) { access<std::uint8_t>(); }
VC_PROOF(access_u32) { access<std::uint32_t>(); }
template <typename B> static void ends() {
    start();
    BV<B> x = any<B>(n, "x");
    bool const v = vc_bool("v"), other = j < n && get(x, j);
    unsigned const op = vc_u8("op");
    vc_assume(op < 6);
    u64 m = n;
    switch (op) {
    case 0: x.push_back(v); m = n + 1u; vc_assert(wf(x) && get(x, n) == v, "push_back appends the bit"); break;
    case 1: vc_assume(n > 0); x.pop_back(); m = n - 1u; break;
    case 2: m = vc_len("m"); vc_assume(m < (u64(1) << 40)); x.resize(m); break;
    case 3: x.clear(); m = 0; break;
    case 4: x.clear_and_release(); m = 0; break;
    default: {
        BV<B> y = any<B>(vc_len("other") % 1000u, "y");
        u64 const k = y.size();
        bool const yj = j < k && get(y, j);
        x.swap(y);
        vc_assert(wf(y) && y.size() == n && (j >= n || get(y, j) == other), "swap exchanges everything");
        if (j < k) vc_assert(get(x, j) == yj, "swap exchanges everything");
        m = k;
    }
    }
    vc_assert(x.size() == m && wf(x), "the size follows");
    if (op < 5 && j < n && j < m) vc_assert(get(x, j) == other, "the other bits stay");
    vc_cover("ends");
}
VC_PROOF(ends_u64) { ends<std::uint64_t>(); }
VC_PROOF(ends_u8) { ends<std::uint8_t>(); }
template <typename B> static void construct() {
    start();
    bool const v = vc_bool("v");
    BV<B> e;
    vc_assert(e.size() == 0 && wf(e), "empty by default");
    BV<B> x(static_cast<std::size_t>(n), v);
    vc_assert(x.size() == n && wf(x) && (j >= n || get(x, j) == v), "n equal bits");
    BV<B> y = any<B>(n, "y");
    bool const yj = j < n && get(y, j);
    BV<B> z(std::move(y));
    vc_assert(z.size() == n && wf(z) && (j >= n || get(z, j) == yj) && y.size() == 0 && wf(y), "moving transfers the bits");
    x = std::move(z);
    vc_assert(x.size() == n && wf(x) && (j >= n || get(x, j) == yj) && z.size() == 0 && wf(z), "so does move assignment");
    vc_cover("construct");
}
VC_PROOF(construct_u64) { construct<std::uint64_t>(); }
VC_PROOF(construct_u8) { construct<std::uint8_t>(); }

// whole-vector operations: block jb stands for all blocks
template <typename B> struct Loop {
    static B * a; static B const * b; static B a0, b0, want; static u64 jb;
    static bool ptr(void const * q) { return a[jb] == (static_cast<B const *>(q) > a + jb ? want : a0); }
    static bool idx(u64 i) { return a[jb] == (i > jb ? want : a0); }
    static bool inPtr(void const * q) { u64 const o = static_cast<u64>(static_cast<char const *>(q) - reinterpret_cast<char const *>(a)); return o % sizeof(B) == 0; }
    static bool keep() { return !b || b[jb] == b0; }
    static void hints() { vc_hint_ptr(&ptr); vc_hint_u64(&idx); vc_hint_ptr(&inPtr); vc_hint0(&keep); }
};
template <typename B> B * Loop<B>::a; template <typename B> B const * Loop<B>::b;
template <typename B> B Loop<B>::a0; template <typename B> B Loop<B>::b0; template <typename B> B Loop<B>::want; template <typename B> u64 Loop<B>::jb;
template <typename B> static void whole(unsigned const op) {
    using L = Loop<B>;
    start();
    vc_assume(j < n);
    BV<B> x = any<B>(n, "x");
    L::jb = j / W<B>();
    L::a = x.m_blocks.p; L::b = nullptr; L::a0 = L::a[L::jb];
    bool const was = get(x, j), v = vc_bool("v");
    bool want;
    switch (op) {
    case 0: L::want = B(~B(0)); want = true; break;
    case 1: L::want = 0; want = false; break;
    case 2: L::want = B(~L::a0); want = !was; break;
    default: L::want = v ? B(~B(0)) : B(0); want = v;
    }
    L::hints();
    vc_config("unwind", 1);
    if (op < 3) {
        BV<B> & r = op == 0 ? x.set() : op == 1 ? x.reset() : x.flip();
        vc_assert(&r == &x, "returns the vector");
    } else x.assign(static_cast<typename BV<B>::size_type>(n), v);
    vc_assert(x.size() == n && wf(x) && get(x, j) == want, "set, reset, flip and assign act on every bit");
    vc_cover("whole");
}
VC_PROOF(set_u64) { whole<std::uint64_t>(0); }
VC_PROOF(reset_u64) { whole<std::uint64_t>(1); }
VC_PROOF(flip_u64) { whole<std::uint64_t>(2); }
VC_PROOF(fill_u64) { whole<std::uint64_t>(3); }
VC_PROOF(set_u8) { whole<std::uint8_t>(0); }
VC_PROOF(flip_u8) { whole<std::uint8_t>(2); }
template <typename B> static void binary(unsigned const op) {
    using L = Loop<B>;
    start();
    vc_assume(j < n);
    BV<B> x = any<B>(n, "x"), y = any<B>(n, "y");
    L::jb = j / W<B>();
    L::a = x.m_blocks.p; L::b = y.m_blocks.p; L::a0 = L::a[L::jb]; L::b0 = L::b[L::jb];
    bool const s = get(x, j), t = get(y, j);
    L::want = op == 0 ? B(L::a0 & L::b0) : op == 1 ? B(L::a0 | L::b0) : op == 2 ? B(L::a0 ^ L::b0) : L::b0;
    L::hints();
    vc_config("unwind", 1);
    if (op < 3) {
        BV<B> & r = op == 0 ? (x &= y) : op == 1 ? (x |= y) : (x ^= y);
        vc_assert(&r == &x, "returns the vector");
    } else x.assign(y);
    vc_assert(x.size() == n && wf(x) && get(x, j) == (op == 0 ? s & t : op == 1 ? s | t : op == 2 ? s ^ t : t), "and, or, xor and assign act bit by bit");
    vc_assert(y.size() == n && get(y, j) == t, "the operand stays");
    vc_cover("binary");
}
VC_PROOF(and_u64) { binary<std::uint64_t>(0); }
VC_PROOF(or_u64) { binary<std::uint64_t>(1); }
VC_PROOF(xor_u64) { binary<std::uint64_t>(2); }
VC_PROOF(assign_u64) { binary<std::uint64_t>(3); }
VC_PROOF(xor_u8) { binary<std::uint8_t>(2); }
VC_PROOF(assign_u8) { binary<std::uint8_t>(3); }
