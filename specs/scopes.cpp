// CallStack, ScopeExit, throwNested and throwWithNested.
#include <exception>
#include <utility>
#include "vc.h"
#define private public
#define protected public
#include <sharemind/CallStack.h>
#undef private
#undef protected
#include <sharemind/ScopeExit.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>
using u64 = std::uint64_t;
namespace {
template <typename S> struct Make;
template <typename K> struct Make<sharemind::CallStack<K, void>> {
    using C = typename sharemind::CallStack<K, void>::Context;
    C c;
    Make(K k, u64) : c(k) {}
    bool ok(K k, u64) { C const & x = c; return c.key() == k && x.key() == k; }
};
template <typename K, typename V> struct Make<sharemind::CallStack<K, V>> {
    using C = typename sharemind::CallStack<K, V>::Context;
    C c;
    Make(K k, u64 v) : c(k, v) {}
    bool ok(K k, u64 v) { C const & x = c; return c.key() == k && x.key() == k && c.value() == v && x.value() == v; }
};
}
// a stack of arbitrary depth, as far as contains() can see: any number of other contexts, then the ones looked at here
template <typename S> static void scopes() {
    using C = typename S::Context;
    u64 const k1 = vc_u64("k1"), k2 = vc_u64("k2"), k3 = vc_u64("k3"), x = vc_u64("x"), v = vc_u64("v");
    vc_assert(S::top() == nullptr && S::contains(x) == nullptr, "empty at first");
    C * below = nullptr;
    {
        Make<S> a(k1, v);
        vc_assert(S::top() == &a.c && a.c.next() == nullptr && a.ok(k1, v), "the innermost scope is on top");
        vc_assert(S::contains(x) == (x == k1 ? &a.c : below), "contains finds the key");
        try {
            Make<S> b(k2, v + 1u);
            vc_assert(S::top() == &b.c && b.c.next() == &a.c && b.ok(k2, v + 1u), "the innermost scope is on top");
            Make<S> c(k3, v + 2u);
            vc_assert(S::top() == &c.c && c.c.next() == &b.c, "the innermost scope is on top");
            C * const f = S::contains(x);
            vc_assert(f == (x == k3 ? &c.c : x == k2 ? &b.c : x == k1 ? &a.c : nullptr), "contains finds the innermost scope with the key");
            if (vc_bool("throw")) throw 1;
        } catch (int) {
            vc_assert(S::top() == &a.c, "scopes left by an exception are gone");
        }
        vc_assert(S::top() == &a.c && a.ok(k1, v), "the enclosing scope is back");
        {
            Make<S> d(k3, v);
            vc_assert(S::top() == &d.c && d.c.next() == &a.c, "the innermost scope is on top");
        }
        vc_assert(S::contains(x) == (x == k1 ? &a.c : below), "contains finds the key");
    }
    vc_assert(S::top() == nullptr, "empty at last");
    vc_cover("scopes");
}
VC_PROOF(callstack) { scopes<sharemind::CallStack<u64>>(); }
VC_PROOF(callstack_value) { scopes<sharemind::CallStack<u64, u64>>(); }

static unsigned runs, order;
struct Count { unsigned n; void operator()() const { ++runs; order = order * 10u + n; } };
struct Thrower { void operator()() const { ++runs; throw 7u; } };
VC_PROOF(scope_exit) {
    runs = 0; order = 0;
    unsigned const how = vc_u8("how");
    vc_assume(how < 4);
    u64 got = 0;
    u64 const val = vc_u64("val");
    int caught = 0;
    for (int once = 0; once < 1; ++once) {
        try {
            sharemind::ScopeExit const a(Count{1});
            u64 * const out = &got;
            SHAREMIND_SCOPE_EXIT(*out = val);
            sharemind::ScopeExit const b(Count{2});
            vc_assert(runs == 0 && got == 0, "not before the scope ends");
            if (how == 0) throw 1;
            if (how == 1) continue;
            if (how == 2) break;
        } catch (int x) { caught = x; }
    }
    vc_assert(runs == 2 && order == 21 && got == val, "each action runs exactly once when its scope ends, innermost first");
    vc_assert(caught == (how == 0), "exceptions pass");
    bool passed = false;
    try { sharemind::ScopeExit const t{Thrower()}; } catch (unsigned x) { passed = x == 7u; }
    vc_assert(passed && runs == 3, "an exception of the action itself is passed on");
    vc_assert(vc_live_heap() == 0, "nothing is left");
    vc_cover("scope exit");
}
struct E1: std::exception { u64 v; E1(u64 x) : v(x) {} };
struct E2: std::exception { u64 v; E2(u64 x) : v(x) {} };
struct E3: std::exception { u64 v; E3(u64 x) : v(x) {} };
template <typename F> static void chain(F f, u64 a, u64 b, u64 c, bool hasA, bool hasB) {
    // the last exception named is thrown, with the ones before nested in it in turn
    int depth = 0;
    try { f(); } catch (E3 const & e3) {
        vc_assert(e3.v == c, "the outermost exception"); ++depth;
        try { std::rethrow_if_nested(e3); } catch (E2 const & e2) {
            vc_assert(e2.v == b, "the exception nested in it"); ++depth;
            try { std::rethrow_if_nested(e2); } catch (E1 const & e1) {
                vc_assert(e1.v == a, "the exception nested in that"); ++depth;
                try { std::rethrow_if_nested(e1); } catch (...) { vc_assert(false, "nothing is nested in the first"); }
            }
        }
    }
    vc_assert(depth == 1 + (hasB ? 1 : 0) + (hasA ? 1 : 0), "the whole chain");
}
VC_PROOF(nested) {
    u64 const a = vc_u64("a"), b = vc_u64("b"), c = vc_u64("c");
    chain([=] { sharemind::throwNested(E1(a), E2(b), E3(c)); }, a, b, c, true, true);
    chain([=] { sharemind::throwNested(E2(b), E3(c)); }, a, b, c, false, true);
    chain([=] { sharemind::throwNested(E3(c)); }, a, b, c, false, false);
    E1 const l1(a); E2 l2(b);
    chain([&] { sharemind::throwNested(l1, l2, E3(c)); }, a, b, c, true, true);
    vc_cover("nested");
}
VC_PROOF(with_nested) {
    u64 const a = vc_u64("a"), b = vc_u64("b"), c = vc_u64("c");
    chain([=] { try { throw E1(a); } catch (...) { sharemind::throwWithNested(E2(b), E3(c)); } }, a, b, c, true, true);
    chain([=] { try { throw E2(b); } catch (...) { sharemind::throwWithNested(E3(c)); } }, a, b, c, false, true);
    chain([=] { try { throw E3(c); } catch (...) { sharemind::throwWithNested(); } }, a, b, c, false, false);
    vc_cover("with nested");
}
