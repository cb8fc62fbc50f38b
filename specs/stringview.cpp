// BasicStringView<char>: access, slicing, comparison, search and trimming for views of any length
#include "vc.h"
#include <sharemind/StringView.h>
using namespace sharemind;
using SV = StringView;
using u64 = std::uint64_t;
static constexpr u64 npos = ~u64(0);

struct V { char const * p; u64 n; SV v() const { return SV(p, n); } };
static V any(char const * name) {
    vc_config("unwind", 2);     // cut loops early
    u64 const n = vc_len(name);
    return V{vc_array<char>(n, name), n};
}
static bool is(SV v, char const * p, u64 n) { return (v.data() == p) & (v.size() == n); }
static int sgn(int x) { return (x > 0) - (x < 0); }
static u64 mn(u64 a, u64 b) { return a < b ? a : b; }
// lexicographic order of the two byte sequences
static int lex(char const * a, u64 n, char const * b, u64 m) {
    int const c = std::memcmp(a, b, mn(n, m));
    return c ? sgn(c) : n < m ? -1 : n > m;
}
template <typename F> static bool throws(F f) {
    try { f(); return false; } catch (std::out_of_range const &) { return true; }
}

VC_PROOF(access) {
    V const a = any("a");
    SV const v(a.p, a.n);
    vc_assert(is(v, a.p, a.n) && v.length() == a.n && v.empty() == (a.n == 0), "construction, data, size, empty");
    vc_assert(v.begin() == a.p && v.cbegin() == a.p && v.end() == a.p + a.n && v.cend() == a.p + a.n, "iterators span the view");
    vc_assert(v.rbegin().base() == a.p + a.n && v.crbegin().base() == a.p + a.n && v.rend().base() == a.p && v.crend().base() == a.p, "reverse iterators span the view");
    u64 const i = vc_u64("i");
    if (i < a.n) {
        vc_assert(&v[i] == a.p + i && &v.at(i) == a.p + i, "[i] and at(i) are element i");
        vc_assert(&v.front() == a.p && &v.back() == a.p + (a.n - 1), "front, back");
        vc_cover("inside");
    } else {
        vc_assert(throws([&] { v.at(i); }), "at(i) throws when i >= size");
        vc_cover("outside");
    }
    V const b = any("b");
    SV x(v), y(b.p, b.n);
    x.swap(y);
    vc_assert(is(x, b.p, b.n) && is(y, a.p, a.n), "swap");
    x = y;
    vc_assert(is(x, a.p, a.n), "assignment");
    SV const d;
    vc_assert(d.size() == 0 && d.data() == nullptr && d.empty() && d.begin() == d.end(), "default construction gives the empty view");
    vc_assert(is(SV(static_cast<char const *>(nullptr)), nullptr, 0), "construction from a null string");
    if (i <= a.n) {
        SV r(v); r.removePrefix(i);
        vc_assert(is(r, a.p + i, a.n - i), "removePrefix");
        SV s(v); s.removeSuffix(i);
        vc_assert(is(s, a.p, a.n - i), "removeSuffix");
    }
    vc_cover("access");
}
VC_PROOF(slices) {
    V const a = any("a");
    SV const v = a.v();
    u64 const i = vc_u64("i"), n = vc_u64("n");
    if (i <= a.n) {
        vc_assert(is(v.substr(i, n), a.p + i, mn(n, a.n - i)), "substr(pos, n)");
        vc_assert(is(v.substr(i), a.p + i, a.n - i), "substr(pos)");
        vc_assert(is(v.left(i), a.p, i), "left");
        vc_assert(is(v.right(i), a.p + (a.n - i), i), "right");
        vc_assert(is(v.leftClipped(i), a.p + i, a.n - i), "leftClipped");
        vc_assert(is(v.rightClipped(i), a.p, a.n - i), "rightClipped");
        if (n <= a.n - i) {
            vc_assert(is(v.clipped(i, n), a.p + i, a.n - i - n), "clipped");
            vc_cover("clipped");
        } else {
            vc_assert(throws([&] { v.clipped(i, n); }), "clipped throws when l + r > size");
            vc_cover("clipped throws");
        }
        vc_cover("inside");
    } else {
        vc_assert(throws([&] { v.substr(i, n); }), "substr throws when pos > size");
        vc_assert(throws([&] { v.left(i); }), "left throws when n > size");
        vc_assert(throws([&] { v.right(i); }), "right throws when n > size");
        vc_assert(throws([&] { v.leftClipped(i); }), "leftClipped throws when n > size");
        vc_assert(throws([&] { v.rightClipped(i); }), "rightClipped throws when n > size");
        vc_assert(throws([&] { v.clipped(i, n); }), "clipped throws when l > size");
        vc_cover("outside");
    }
}
VC_PROOF(copy_out) {
    V const a = any("a");
    u64 const m = vc_len("m"), pos = vc_u64("pos"), count = vc_u64("count"), j = vc_u64("j");
    char * const d = vc_array<char>(m, "d");
    if (pos > a.n) {
        vc_assert(throws([&] { a.v().copy(d, count, pos); }), "copy throws when pos > size");
        vc_cover("throws");
        return;
    }
    u64 const want = mn(count, a.n - pos);
    vc_assume(m >= want && j < m);
    char const old = d[j];
    u64 const r = a.v().copy(d, count, pos);
    vc_assert(r == want, "copy returns the number of characters copied");
    vc_assert(d[j] == (j < want ? a.p[pos + j] : old), "copy copies exactly these characters");
    vc_cover("copy");
}
VC_PROOF(compare) {
    V const a = any("a"), b = any("b");
    SV const v = a.v(), w = b.v();
    int const want = lex(a.p, a.n, b.p, b.n);
    vc_assert(sgn(v.compare(w)) == want, "compare(view) is lexicographic");
    vc_cover("compare");
}
VC_PROOF(compare_str) {
    V const a = any("a"), b = any("b");
    vc_assert(sgn(a.v().compare(b.p, b.n)) == lex(a.p, a.n, b.p, b.n), "compare(str, n) is lexicographic");
    vc_cover("compare");
}
template <unsigned op> static void relop() {
    V const a = any("a"), b = any("b");
    SV const v = a.v(), w = b.v();
    int const o = lex(a.p, a.n, b.p, b.n);
    bool const want[] = { o == 0, o != 0, o < 0, o <= 0, o > 0, o >= 0 };
    vc_assert((op == 0 ? v == w : op == 1 ? v != w : op == 2 ? v < w : op == 3 ? v <= w : op == 4 ? v > w : v >= w) == want[op],
              "relational operator agrees with lexicographic order");
    vc_cover("relop");
}
VC_PROOF(op_eq) { relop<0>(); }
VC_PROOF(op_ne) { relop<1>(); }
VC_PROOF(op_lt) { relop<2>(); }
VC_PROOF(op_le) { relop<3>(); }
VC_PROOF(op_gt) { relop<4>(); }
VC_PROOF(op_ge) { relop<5>(); }
VC_PROOF(compare_sub) {
    V const a = any("a"), b = any("b");
    SV const v = a.v(), w = b.v();
    u64 const pos = vc_u64("pos"), n = vc_u64("n");
    if (pos > a.n) {
        vc_assert(throws([&] { v.compare(pos, n, w); }) && throws([&] { v.compare(pos, n, b.p, b.n); })
                  && throws([&] { v.compare(pos, n, w, 0, npos); }), "compare throws when pos > size");
        vc_cover("throws");
        return;
    }
    vc_assert(sgn(v.compare(pos, n, w)) == lex(a.p + pos, mn(n, a.n - pos), b.p, b.n), "compare(pos, n, view)");
    vc_cover("compare");
}
VC_PROOF(compare_sub_str) {
    V const a = any("a"), b = any("b");
    u64 const pos = vc_u64("pos"), n = vc_u64("n");
    vc_assume(pos <= a.n);
    vc_assert(sgn(a.v().compare(pos, n, b.p, b.n)) == lex(a.p + pos, mn(n, a.n - pos), b.p, b.n), "compare(pos, n, str, size)");
    vc_cover("compare");
}
VC_PROOF(compare_sub_sub) {
    V const a = any("a"), b = any("b");
    SV const v = a.v(), w = b.v();
    u64 const pos = vc_u64("pos"), n = vc_u64("n"), pos2 = vc_u64("pos2"), n2 = vc_u64("n2");
    vc_assume(pos <= a.n);
    if (pos2 > b.n) {
        vc_assert(throws([&] { v.compare(pos, n, w, pos2, n2); }), "compare throws when pos2 > size");
        vc_cover("throws");
        return;
    }
    vc_assert(sgn(v.compare(pos, n, w, pos2, n2)) == lex(a.p + pos, mn(n, a.n - pos), b.p + pos2, mn(n2, b.n - pos2)), "compare(pos, n, view, pos2, n2)");
    vc_cover("compare");
}
VC_PROOF(starts_ends) {
    V const a = any("a"), b = any("b");
    SV const v = a.v(), w = b.v();
    if (b.n <= a.n) {
        vc_assert(v.startsWith(w) == (std::memcmp(a.p, b.p, b.n) == 0), "startsWith(view)");
        vc_cover("fits");
    } else
        vc_assert(!v.startsWith(w) && !v.startsWith(b.p, b.n) && !v.endsWith(w) && !v.endsWith(b.p, b.n), "too long to be a prefix or suffix");
    char const c = (char) vc_u8("c");
    vc_assert(v.startsWith(c) == (a.n > 0 && a.p[0] == c), "startsWith(char)");
    vc_assert(v.endsWith(c) == (a.n > 0 && a.p[a.n - 1] == c), "endsWith(char)");
    vc_cover("starts_ends");
}
VC_PROOF(ends) {
    V const a = any("a"), b = any("b");
    vc_assume(b.n <= a.n);
    vc_assert(a.v().endsWith(b.v()) == (std::memcmp(a.p + (a.n - b.n), b.p, b.n) == 0), "endsWith(view)");
    vc_cover("ends");
}
VC_PROOF(starts_str) {
    V const a = any("a"), b = any("b");
    vc_assume(b.n <= a.n);
    vc_assert(a.v().startsWith(b.p, b.n) == (std::memcmp(a.p, b.p, b.n) == 0), "startsWith(str, n)");
    vc_cover("starts");
}
VC_PROOF(ends_str) {
    V const a = any("a"), b = any("b");
    vc_assume(b.n <= a.n);
    vc_assert(a.v().endsWith(b.p, b.n) == (std::memcmp(a.p + (a.n - b.n), b.p, b.n) == 0), "endsWith(str, n)");
    vc_cover("ends");
}
// null-terminated arguments: same as with the explicit length
static V anyz(char const * name) {
    u64 const n = vc_len(name);
    char * const p = vc_array<char>(n + 1, name);
    p[n] = 0;
    u64 const l = std::strlen(p);
    return V{p, l};
}
VC_PROOF(cstr) {
    V const z = anyz("z"), a = any("a");
    vc_assert(is(SV(z.p), z.p, z.n), "construction from a C string spans up to its terminator");
    vc_cover("cstr");
}
// The C string overloads forward the string's length. The length is handed in by this contract (strlen's).
VC_PROOF(cstr_compare) {
    V const z = anyz("z"), a = any("a");
    vc_assert(sgn(a.v().compare(z.p)) == lex(a.p, a.n, z.p, z.n), "compare(C string)");
    vc_cover("c");
}
VC_PROOF(cstr_compare_sub) {
    V const z = anyz("z"), a = any("a");
    u64 const pos = vc_u64("pos"), n = vc_u64("n");
    if (pos > a.n) {
        vc_assert(throws([&] { a.v().compare(pos, n, z.p); }), "compare throws when pos > size");
        return;
    }
    vc_assert(sgn(a.v().compare(pos, n, z.p)) == lex(a.p + pos, mn(n, a.n - pos), z.p, z.n), "compare(pos, n, C string)");
    vc_cover("c");
}
VC_PROOF(cstr_starts) {
    V const z = anyz("z"), a = any("a");
    bool const r = a.v().startsWith(z.p);
    vc_assert(r == (z.n <= a.n && std::memcmp(a.p, z.p, z.n) == 0), "startsWith(C string)");
    vc_cover("c");
}
VC_PROOF(cstr_ends) {
    V const z = anyz("z"), a = any("a");
    bool const r = a.v().endsWith(z.p);
    vc_assert(r == (z.n <= a.n && std::memcmp(a.p + (a.n - z.n), z.p, z.n) == 0), "endsWith(C string)");
    vc_cover("c");
}

// ---- searching. k is an arbitrary index; claims about "the first" or "the last" are stated for it.
static char const * sp, * tp;
static u64 K, N, M, POS;
static bool upTo(u64 i) { return i <= K; }
static bool above(u64 i) { return i > K; }
static bool atLeastPos(u64 i) { return i >= POS; }

// first index >= pos at which match(i) holds
// R(v, pos): the call; D: assume that k is a match / is not
template <typename F> static void first_char(bool want, F f) {
    V const a = any("a");
    char const c = (char) vc_u8("c");
    u64 const pos = vc_u64("pos"), k = vc_u64("k");
    vc_assume(k >= pos && k < a.n && (a.p[k] == c) == want);
    K = k; POS = pos;
    vc_hint_u64(&upTo); vc_hint_u64(&atLeastPos);
    vc_instantiate(a.p + k);
    u64 const r = f(a.v(), c, pos);
    vc_assert(r >= pos && r <= k, "no match between pos and the result");
    vc_assert((a.p[r] == c) == want, "the result is a match");
    vc_cover("found");
}
template <typename F> static void none_char(bool want, F f) {
    V const a = any("a");
    char const c = (char) vc_u8("c");
    u64 const pos = vc_u64("pos");
    POS = pos;
    vc_hint_u64(&atLeastPos);
    u64 const r = f(a.v(), c, pos);
    vc_assert(vc_implies(r != npos, r >= pos && r < a.n), "the result is npos or an index from pos on");
    if (r != npos) {
        vc_assert((a.p[r] == c) == want, "the result is a match");
        vc_cover("found");
    }
    vc_cover("any");
}
template <typename F> static void last_char(bool want, F f) {
    V const a = any("a");
    char const c = (char) vc_u8("c");
    u64 const pos = vc_u64("pos"), k = vc_u64("k");
    vc_assume(k <= pos && k < a.n && (a.p[k] == c) == want);
    K = k;
    vc_hint_u64(&above);
    vc_instantiate(a.p + k);
    u64 const r = f(a.v(), c, pos);
    vc_assert(r >= k && r <= pos && r < a.n, "no match between the result and pos");
    vc_assert((a.p[r] == c) == want, "the result is a match");
    vc_cover("found");
}
template <typename F> static void none_last_char(bool want, F f) {
    V const a = any("a");
    char const c = (char) vc_u8("c");
    u64 const pos = vc_u64("pos");
    u64 const r = f(a.v(), c, pos);
    vc_assert(vc_implies(r != npos, r <= pos && r < a.n), "the result is npos or an index up to pos");
    if (r != npos) {
        vc_assert((a.p[r] == c) == want, "the result is a match");
        vc_cover("found");
    }
    vc_cover("any");
}
#define CH(name, kind, want, call) \
    VC_PROOF(kind##_##name) { kind##_char(want, [](SV v, char c, u64 pos) { (void) pos; return v.call; }); } \
    VC_PROOF(kind##_##name##_none) { none##kind(want, [](SV v, char c, u64 pos) { (void) pos; return v.call; }); }
template <typename F> static void nonefirst(bool w, F f) { none_char(w, f); }
template <typename F> static void nonelast(bool w, F f) { none_last_char(w, f); }
CH(find, first, true, find(c, pos))
CH(findFirstOf, first, true, findFirstOf(c, pos))
CH(findFirstNotOf, first, false, findFirstNotOf(c, pos))
CH(rfind, last, true, rfind(c, pos))
CH(findLastOf, last, true, findLastOf(c, pos))
CH(findLastNotOf, last, false, findLastNotOf(c, pos))
// default positions: the whole view
#define CHD(name, kind, want, call) \
    VC_PROOF(kind##_##name##_all) { V const a = any("a"); char const c = (char) vc_u8("c"); u64 const k = vc_u64("k"); \
        vc_assume(k < a.n && (a.p[k] == c) == want); K = k; POS = 0; vc_hint_u64(&upTo); vc_hint_u64(&above); vc_instantiate(a.p + k); \
        u64 const r = a.v().call; \
        vc_assert(r < a.n && (a.p[r] == c) == want, "a match anywhere in the view is found"); \
        vc_assert(#kind[0] == 'f' ? r <= k : r >= k, "it is the " #kind " one"); vc_cover("found"); }
CHD(find, first, true, find(c))
CHD(findFirstOf, first, true, findFirstOf(c))
CHD(findFirstNotOf, first, false, findFirstNotOf(c))
CHD(rfind, last, true, rfind(c))
CHD(findLastOf, last, true, findLastOf(c))
CHD(findLastNotOf, last, false, findLastNotOf(c))

// character sets
static bool in(char const * t, u64 m, char c) { return m != 0 && std::memchr(t, (unsigned char) c, m) != nullptr; }
template <bool want, bool fwd, bool all, typename F> static void set_hit(F f) {
    V const a = any("a"), t = any("t");
    u64 const pos = all ? (fwd ? 0 : npos) : vc_u64("pos"), k = vc_u64("k");
    vc_assume((fwd ? k >= pos : k <= pos) && k < a.n);
    if (want) {         // a.p[k] is member j of the set
        u64 const j = vc_u64("j");
        vc_assume(j < t.n && t.p[j] == a.p[k]);
        vc_instantiate(t.p + j);
    } else
        vc_assume(!in(t.p, t.n, a.p[k]));
    K = k; POS = pos;
    if (fwd) { vc_hint_u64(&upTo); vc_hint_u64(&atLeastPos); } else vc_hint_u64(&above);
    u64 const r = f(a.v(), t.v(), pos);
    vc_assert(r < a.n && (fwd ? r >= pos && r <= k : r <= pos && r >= k), "the first (last) match is found");
    vc_assert(in(t.p, t.n, a.p[r]) == want, "the result is a match");
    vc_cover("found");
}
template <bool want, bool fwd, typename F> static void set_any(F f) {
    V const a = any("a"), t = any("t");
    u64 const pos = vc_u64("pos");
    POS = pos;
    if (fwd) vc_hint_u64(&atLeastPos);
    u64 const r = f(a.v(), t.v(), pos);
    if (r != npos) {
        vc_assert(r < a.n && (fwd ? r >= pos : r <= pos), "the result lies in the searched part");
        vc_assert(in(t.p, t.n, a.p[r]) == want, "the result is a match");
        vc_cover("found");
    }
    vc_cover("any");
}
#define SET(name, want, fwd) \
    VC_PROOF(set_##name) { set_hit<want, fwd, false>([](SV v, SV t, u64 pos) { return v.name(t, pos); }); } \
    VC_PROOF(set_##name##_str) { set_hit<want, fwd, false>([](SV v, SV t, u64 pos) { return v.name(t.data(), pos, t.size()); }); } \
    VC_PROOF(set_##name##_all) { set_hit<want, fwd, true>([](SV v, SV t, u64) { return v.name(t); }); } \
    VC_PROOF(set_##name##_any) { set_any<want, fwd>([](SV v, SV t, u64 pos) { return v.name(t, pos); }); }
SET(findFirstOf, true, true)
SET(findFirstNotOf, false, true)
SET(findLastOf, true, false)
SET(findLastNotOf, false, false)

// substrings
template <bool fwd, bool all, typename F> static void sub_hit(F f) {
    V const a = any("a"), t = any("t");
    u64 const pos = all ? (fwd ? 0 : npos) : vc_u64("pos"), k = vc_u64("k"), j = vc_u64("j");
    vc_assume(t.n <= a.n && k <= a.n - t.n && (fwd ? k >= pos : k <= pos));
    vc_assume(std::memcmp(a.p + k, t.p, t.n) == 0);      // an occurrence at k
    K = k; POS = pos;
    if (fwd) { vc_hint_u64(&upTo); vc_hint_u64(&atLeastPos); } else vc_hint_u64([](u64 i) { return i >= K; });
    if (j < t.n) vc_instantiate(t.p + j);
    u64 const r = f(a.v(), t.v(), pos);
    vc_assert(r <= a.n - t.n && (fwd ? r >= pos && r <= k : r <= pos && r >= k), "the first (last) occurrence is found");
    if (j < t.n)
        vc_assert(a.p[r + j] == t.p[j], "the result is an occurrence");
    vc_cover("found");
}
template <bool fwd, typename F> static void sub_any(F f) {
    V const a = any("a"), t = any("t");
    u64 const pos = vc_u64("pos"), j = vc_u64("j");
    POS = pos;
    if (fwd) vc_hint_u64(&atLeastPos);
    if (j < t.n) vc_instantiate(t.p + j);
    u64 const r = f(a.v(), t.v(), pos);
    if (r != npos) {
        vc_assert(t.n <= a.n && r <= a.n - t.n && (fwd ? r >= pos : r <= pos), "the result lies in the searched part");
        if (j < t.n)
            vc_assert(a.p[r + j] == t.p[j], "the result is an occurrence");
        vc_cover("found");
    }
    vc_cover("any");
}
#define SUB(name, fwd) \
    VC_PROOF(sub_##name) { sub_hit<fwd, false>([](SV v, SV t, u64 pos) { return v.name(t, pos); }); } \
    VC_PROOF(sub_##name##_str) { sub_hit<fwd, false>([](SV v, SV t, u64 pos) { return v.name(t.data(), pos, t.size()); }); } \
    VC_PROOF(sub_##name##_all) { sub_hit<fwd, true>([](SV v, SV t, u64) { return v.name(t); }); } \
    VC_PROOF(sub_##name##_any) { sub_any<fwd>([](SV v, SV t, u64 pos) { return v.name(t, pos); }); }
SUB(find, true)
SUB(rfind, false)

// trimming: the result is the sub-range between the first and last character kept
template <bool L, bool R, typename F, typename D, typename I> static void trim(F f, D drop, I inst) {
    V const a = any("a");
    u64 const k = vc_u64("k");
    K = k;
    vc_hint_u64([](u64 i) { return i <= K; }); vc_hint_u64(&above); vc_hint_u64([](u64 i) { return i >= K; });
    if (k < a.n) {
        inst(a.p[k]);
        if (!drop(a.p[k])) {          // a character that must be kept
            SV const r = f(a.v());
            vc_assert(r.data() >= a.p && r.data() <= a.p + k && r.size() > 0 && r.data() + r.size() > a.p + k
                      && r.data() + r.size() <= a.p + a.n, "the result is a sub-range around every kept character");
            vc_assert(L || r.data() == a.p, "nothing is removed on the left");
            vc_assert(R || r.data() + r.size() == a.p + a.n, "nothing is removed on the right");
            vc_assert(!L || !drop(r.front()), "the first character is kept");
            vc_assert(!R || !drop(r.back()), "the last character is kept");
            vc_cover("kept");
        }
    } else {
        SV const r = f(a.v());
        vc_assert(r.size() == 0 || (r.data() >= a.p && r.data() + r.size() <= a.p + a.n), "the result is empty or a sub-range");
        if (r.size() > 0) {
            vc_assert(!L || !drop(r.front()), "the first character is kept");
            vc_assert(!R || !drop(r.back()), "the last character is kept");
            vc_cover("some");
        }
        vc_cover("any");
    }
}
static char TC;
#define TRIM(name, L, R) \
    VC_PROOF(trim_##name) { TC = (char) vc_u8("c"); trim<L, R>([](SV v) { return v.name(TC); }, [](char c) { return c == TC; }, [](char) {}); } \
    VC_PROOF(trim_##name##_set) { V const t = any("t"); tp = t.p; M = t.n; \
        trim<L, R>([](SV v) { return v.name(SV(tp, M)); }, [](char c) { return in(tp, M, c); }, [](char) {}); } \
    VC_PROOF(trim_##name##_str) { V const t = any("t"); tp = t.p; M = t.n; \
        trim<L, R>([](SV v) { return v.name(tp, M); }, [](char c) { return in(tp, M, c); }, [](char) {}); }
TRIM(leftTrimmed, true, false)
TRIM(rightTrimmed, false, true)
TRIM(trimmed, true, true)
