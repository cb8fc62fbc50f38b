// Contract primitives used by the specifications in /verif/specs.
// In the verifier these are interpreted symbolically; with VC_NATIVE they read
// concrete values (a solver model, or a random stream) and run on the real code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
std::uint8_t vc_u8(char const * name);
std::uint16_t vc_u16(char const * name);
std::uint32_t vc_u32(char const * name);
std::uint64_t vc_u64(char const * name);
bool vc_bool(char const * name);
std::uint64_t vc_len(char const * name);          // arbitrary size, unbounded for the proof
std::uint64_t vc_ghost_u64();
void vc_witness_set(std::uint64_t slot, std::uint64_t v);  // in an invariant hint: existential witness ...
std::uint64_t vc_witness_get(std::uint64_t slot);          // ... usable after the loop                      // specification-only arbitrary value
bool vc_is_symbolic();
void vc_assume(bool c);                            // requires
void vc_assert(bool c, char const * name);         // ensures / invariant
void vc_cover(char const * name);                  // must be reachable (vacuity guard)
void vc_end();
void vc_config(char const * key, std::uint64_t v);
void * vc_bytes(std::uint64_t n, std::uint64_t elemWidth, std::uint64_t align, char const * name);
void vc_havoc(void * p, std::uint64_t n, char const * name);
void vc_hint0(bool (*f)());
void vc_hint_u64(bool (*f)(std::uint64_t));
void vc_hint_ptr(bool (*f)(void const *));
// predicates on pairs: a loop-carried variable, and another one or a value in scope
void vc_hint2_u64(bool (*f)(std::uint64_t, std::uint64_t));
void vc_hint2_ptr(bool (*f)(void const *, void const *));
/// predicate over two objects of the given size modified by a loop, and the iteration number
void vc_hint_obj2(bool (*f)(void const *, void const *, std::uint64_t), std::uint64_t size);
void vc_clear_hints();
/// every atomic access at p runs before(p, LLVM memory ordering), then the access, then after(p). (Not in native runs.)
void vc_atomic_hooks(void (*before)(void *, int), void (*after)(void *));
/// while guards are on, reading [p, p+n) needs bit 0 of *own, writing needs bit 1 (ownership, e.g. "the lock is held")
void vc_guard(void const * p, std::uint64_t n, std::uint8_t const * own);
void vc_guards(bool on);
void vc_bound_u64(std::uint64_t v);
void vc_bound_ptr(void const * v);
std::uint64_t vc_ite(bool c, std::uint64_t a, std::uint64_t b);     // c ? a : b, without splitting cases
void vc_instantiate(void const * p);
bool vc_same_object(void const * a, void const * b);
std::uint64_t vc_live_heap();
bool vc_is_live(void const * p);
std::uint64_t vc_obj_size(void const * p);
std::uint64_t vc_obj_offset(void const * p);
std::uint64_t vc_obj_align(void const * p);
void * vc_alloc(std::uint64_t n, std::uint64_t align);      // for allocation contracts: a fresh block, to be freed with free()
bool vc_known(bool c);
void vc_trace(char const * s);
void vc_yield();
}

#define VC_PROOF(name) extern "C" void vc_proof_##name()

template <typename T> inline T vc_any(char const * name) {
    switch (sizeof(T)) {
    case 1: return static_cast<T>(vc_u8(name));
    case 2: return static_cast<T>(vc_u16(name));
    case 4: return static_cast<T>(vc_u32(name));
    default: return static_cast<T>(vc_u64(name));
    }
}
template <> inline bool vc_any<bool>(char const * name) { return vc_bool(name); }

template <typename T> inline T * vc_array(std::uint64_t n, char const * name) {
    return static_cast<T *>(vc_bytes(n * sizeof(T), sizeof(T), alignof(T), name));
}

/// logical connectives without short-circuit branches
inline bool vc_implies(bool a, bool b) { return !a | b; }

#ifdef VC_NATIVE
#include "vc_native.h"
#endif
#endif
