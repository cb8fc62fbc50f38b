// split / splitNoAllowEmpty over sequences of any length with an arbitrary delimiter predicate
#include "vc.h"
#include <sharemind/Split.h>
using u64 = std::uint64_t;
static unsigned char const * tab;     // the predicate: any set of characters
static bool delim(char c) { return tab[(unsigned char) c] != 0; }

static char const * B, * E, * k;    // the sequence; an arbitrary position in it
static char const * next;           // where the next field starts (split) / end of the previous field
static bool done, kseen;
static u64 calls;

static void begin() {
    vc_config("unwind", 2);
    u64 const n = vc_len("n"), K = vc_u64("K");
    B = vc_array<char>(n, "s"); E = B + n;
    vc_assume(K < n);
    k = B + K;
    u64 const tn = vc_len("tab");
    vc_assume(tn == 256);
    tab = vc_array<unsigned char>(tn, "tab");
    next = B; done = kseen = false; calls = 0;
}

// -- split: the fields are what lies between the delimiters
static bool atNext(void const * p) { return p == next; }
static bool afterNext(void const * p) { return p >= next && p <= E; }
static bool noDelim(void const * p) { return vc_implies(next <= k && k < p, !delim(*k)); }
static bool open_() { return !done && next >= B && next <= E; }
static bool covered() { return kseen == (k < next && !delim(*k)); }
static void field(char const * b, char const * e) {
    vc_assert(!done, "no field after the one that reaches the end");
    vc_assert(b == next, "each field starts after the delimiter that ended the previous one");
    vc_assert(b <= e && e <= E, "each field is a range of the sequence");
    vc_assert(vc_implies(b <= k && k < e, !delim(*k)), "a field contains no delimiter");
    if (b <= k && k < e) {
        vc_assert(!kseen, "no position is reported twice");
        kseen = true;
    }
    if (e == E)
        done = true;
    else {
        vc_assert(delim(*e), "a field ends at a delimiter or at the end");
        next = e + 1;
    }
}
VC_PROOF(split) {
    begin();
    vc_hint_ptr(&atNext); vc_hint_ptr(&afterNext); vc_hint_ptr(&noDelim); vc_hint0(&open_); vc_hint0(&covered);
    sharemind::split(B, E, &delim, &field);
    vc_assert(done, "the last field ends at the end of the sequence");
    vc_assert(kseen == !delim(*k), "every position that is no delimiter lies in exactly one field");
    vc_cover("end");
}
VC_PROOF(split_empty) {
    begin();
    E = B;
    vc_config("unwind", 40);
    sharemind::split(B, B, &delim, [](char const * b, char const * e) { vc_assert(b == B && e == B && calls == 0, "one empty field"); ++calls; });
    vc_assert(calls == 1, "an empty sequence is one empty field");
    vc_cover("end");
}
// a non-const pointer and an lvalue functor behave the same; the predicate is not asked about the end
VC_PROOF(split_lvalue) {
    begin();
    vc_hint_ptr(&atNext); vc_hint_ptr(&afterNext); vc_hint_ptr(&noDelim); vc_hint0(&open_); vc_hint0(&covered);
    auto const p = [](char c) { return delim(c); };
    auto f = [](char const * b, char const * e) noexcept { field(b, e); };
    sharemind::split(const_cast<char *>(B), const_cast<char *>(E), p, f);
    vc_assert(done && kseen == !delim(*k), "every position is accounted for");
    vc_cover("end");
}

// -- splitNoAllowEmpty: the fields are the maximal runs without delimiters
static bool skipped(void const * p) { return p >= next && p <= E && vc_implies(next <= k && k < p, delim(*k)); }
static bool inRun(void const * it, void const * first) {
    return first <= it && it <= E && vc_implies(first <= k && k < it, !delim(*k));
}
static bool inRunIncl(void const * it, void const * first) {
    return first <= it && it < E && vc_implies(first <= k && k <= it, !delim(*k));
}
static bool covered2() { return kseen == (k < next && !delim(*k)) && next >= B && next <= E && !done; }
static bool boundary(void const * p) { return p == B || delim(static_cast<char const *>(p)[-1]); }
static void run(char const * b, char const * e) {
    vc_assert(!done, "no field after the one that reaches the end");
    vc_assert(b >= next && b < e && e <= E, "fields are non-empty ranges in order");
    vc_assert(vc_implies(b <= k && k < e, !delim(*k)), "a field contains no delimiter");
    vc_assert(vc_implies(next <= k && k < b, delim(*k)), "only delimiters are skipped");
    vc_assert(e == E || delim(*e), "a field extends to the next delimiter or the end");
    vc_assert(b == B || delim(b[-1]), "a field starts at the beginning or after a delimiter");
    if (b <= k && k < e) {
        vc_assert(!kseen, "no position is reported twice");
        kseen = true;
    }
    if (e == E)
        done = true;
    else
        next = e + 1;
}
VC_PROOF(no_empty) {
    begin();
    vc_hint_ptr(&skipped); vc_hint2_ptr(&inRun); vc_hint2_ptr(&inRunIncl); vc_hint0(&covered2); vc_hint_ptr(&boundary);
    sharemind::splitNoAllowEmpty(B, E, &delim, &run);
    vc_assert(kseen == !delim(*k), "every position that is no delimiter lies in exactly one field");
    vc_cover("end");
}
VC_PROOF(no_empty_empty) {
    begin();
    sharemind::splitNoAllowEmpty(B, B, &delim, [](char const *, char const *) { ++calls; });
    vc_assert(calls == 0, "an empty sequence has no fields");
    vc_cover("end");
}
