// Concrete interpretation of the primitives in vc.h: replays a model, or searches at random.
#include <csetjmp>
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
namespace vcn {
struct Rec { bool bytes; std::vector<unsigned long long> v; };
static std::map<std::string, std::deque<Rec>> input;
static bool randomMode = false;
static std::uint64_t rng;
static jmp_buf discard;
static bool inRun = false;
static std::vector<void *> blocks;
static std::vector<std::uint64_t> pool;
static int seedFd = -1;
inline std::uint64_t rnd() {
    rng += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::uint64_t rv(unsigned w) {
    std::uint64_t m = (w >= 64) ? ~0ull : ((1ull << w) - 1u);
    std::uint64_t r;
    switch (rnd() % 12) {
    case 0: r = 0; break;
    case 1: r = m; break;
    case 2: r = 1ull << (rnd() % w); break;
    case 3: r = (1ull << (rnd() % w)) - 1u; break;
    case 4: r = rnd() % 4; break;
    case 5: r = rnd() % 20; break;
    case 6: r = m - rnd() % 4; break;
    case 7: case 8: r = pool.empty() ? rnd() : pool[rnd() % pool.size()] + (rnd() % 4 ? 0 : rnd() % 3 - 1); break;
    case 9: r = rnd() % 300; break;
    default: r = rnd();
    }
    r &= m;
    pool.push_back(r);
    return r;
}
inline bool take(char const * n, Rec & r) {
    auto it = input.find(n);
    if (it == input.end() || it->second.empty()) return false;
    r = it->second.front();
    it->second.pop_front();
    return true;
}
inline std::uint64_t val(char const * n, unsigned w) {
    if (randomMode) return rv(w);
    Rec r;
    if (!take(n, r) || r.v.empty()) return 0;
    return r.v[0];
}
inline void reset() {
    for (void * p : blocks) std::free(p);
    blocks.clear();
    pool.clear();
}
inline void fill(unsigned char * p, std::uint64_t n, char const * name, unsigned ew) {
    if (randomMode) {
        unsigned mode = rnd() % 4;
        for (std::uint64_t i = 0; i < n; ++i)
            p[i] = mode == 0 ? rnd() : mode == 1 ? 'a' + rnd() % 2 : mode == 2 ? (rnd() % 3 ? 'a' : " \t,;b"[rnd() % 5]) : rnd() % 4;
        return;
    }
    std::memset(p, 0, n);
    Rec r;
    if (!take(name, r) || r.v.size() < 2) return;
    unsigned w = r.v[0];
    for (std::size_t i = 2; i < r.v.size(); ++i)
        for (unsigned j = 0; j < w; ++j)
            if ((i - 2) * w + j < n) p[(i - 2) * w + j] = (r.v[i] >> (8 * j)) & 0xff;
    (void) ew;
}
}
extern "C" {
inline std::uint8_t vc_u8(char const * n) { return vcn::val(n, 8); }
inline std::uint16_t vc_u16(char const * n) { return vcn::val(n, 16); }
inline std::uint32_t vc_u32(char const * n) { return vcn::val(n, 32); }
inline std::uint64_t vc_u64(char const * n) { return vcn::val(n, 64); }
inline bool vc_bool(char const * n) { return vcn::val(n, 1) & 1; }
inline std::uint64_t vc_len(char const * n) {
    if (vcn::randomMode) { auto r = vcn::rnd() % 10; return r < 6 ? vcn::rnd() % 6 : r < 9 ? vcn::rnd() % 24 : vcn::rnd() % 300; }
    return vcn::val(n, 64);
}
inline std::uint64_t vc_ghost_u64() { return 0; }
inline bool vc_is_symbolic() { return false; }
inline void vc_assume(bool c) { if (!c) { if (vcn::inRun) longjmp(vcn::discard, 1); std::_Exit(77); } }
inline void vc_assert(bool c, char const * name) {
    if (!c) { std::fprintf(stderr, "VC-FAIL %s\n", name); std::fflush(stderr); std::_Exit(101); }
}
inline void vc_cover(char const *) {}
inline void vc_end() { longjmp(vcn::discard, 2); }
inline void vc_config(char const *, std::uint64_t) {}
inline void * vc_bytes(std::uint64_t n, std::uint64_t ew, std::uint64_t align, char const * name) {
    if (n > (1ull << 24)) std::_Exit(77);
    void * p = nullptr;
    if (align <= 1 && n) {           // a deliberately misaligned block
        p = std::malloc(n + 1);
        vcn::blocks.push_back(p);
        p = static_cast<char *>(p) + 1;
    } else { p = std::malloc(n); vcn::blocks.push_back(p); }
    vcn::fill(static_cast<unsigned char *>(p), n, name, ew);
    return p;
}
inline void vc_havoc(void * p, std::uint64_t n, char const * name) { vcn::fill(static_cast<unsigned char *>(p), n, name, 1); }
inline void vc_hint0(bool (*)()) {}
inline void vc_hint_obj2(bool (*)(void const *, void const *, std::uint64_t), std::uint64_t) {}
inline void vc_hint_u64(bool (*)(std::uint64_t)) {}
inline void vc_hint_ptr(bool (*)(void const *)) {}
inline void vc_guard(void const *, std::uint64_t, std::uint8_t const *) {}
inline void vc_guards(bool) {}
inline void vc_atomic_hooks(void (*)(void *, int), void (*)(void *)) {}
inline void vc_hint2_u64(bool (*)(std::uint64_t, std::uint64_t)) {}
inline void vc_hint2_ptr(bool (*)(void const *, void const *)) {}
inline void vc_clear_hints() {}
inline void vc_bound_u64(std::uint64_t) {}
inline void vc_bound_ptr(void const *) {}
inline std::uint64_t vc_ite(bool c, std::uint64_t a, std::uint64_t b) { return c ? a : b; }
inline void vc_instantiate(void const *) {}
inline bool vc_same_object(void const *, void const *) { return true; }
inline std::uint64_t vc_live_heap() { return 0; }
inline bool vc_is_live(void const *) { return true; }
inline std::uint64_t vc_obj_size(void const * p) { return malloc_usable_size(const_cast<void *>(p)); }
inline std::uint64_t vc_obj_offset(void const *) { return 0; }
inline std::uint64_t vc_obj_align(void const *) { return 16; }
inline bool vc_known(bool c) { return c; }
inline void vc_witness_set(std::uint64_t, std::uint64_t) {}
inline std::uint64_t vc_witness_get(std::uint64_t) { return 0; }
inline void vc_trace(char const *) {}
inline void vc_yield() {}
void (*vc_native_lookup(char const * proof))();
}
int main(int argc, char ** argv) {
    // usage: prog model FILE | prog random SEED SECONDS SEEDFILE | prog seed SEED
    using namespace vcn;
    if (argc < 3) return 2;
    char const * pn = std::getenv("VC_PROOF");
    void (*const vc_native_proof)() = pn ? vc_native_lookup(pn) : nullptr;
    if (!vc_native_proof) return 2;
    std::string mode(argv[1]);
    if (mode == "model") {
        std::ifstream f(argv[2]);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string n, k;
            is >> n >> k;
            Rec r; r.bytes = (k == "bytes");
            unsigned long long x;
            while (is >> x) r.v.push_back(x);
            input[n].push_back(r);
        }
        int j = setjmp(discard);
        if (j) return j == 1 ? 77 : 0;
        inRun = true;
        vc_native_proof();
        return 0;
    }
    randomMode = true;
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
    if (mode == "seed") {
        rng = seed;
        int j = setjmp(discard);
        if (j) return j == 1 ? 77 : 0;
        inRun = true;
        vc_native_proof();
        return 0;
    }
    double secs = std::atof(argv[3]);
    int fd = ::open(argv[4], O_RDWR | O_CREAT, 0644);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    static volatile std::uint64_t n = 0, done = 0;
    for (;;) {
        std::uint64_t s = seed * 1000003ull + n * 2654435761ull;
        n = n + 1;
        rng = s;
        if (::pwrite(fd, &s, sizeof(s), 0) != (ssize_t) sizeof(s)) return 2;
        if (!setjmp(discard)) { inRun = true; ::alarm(20); vc_native_proof(); done = done + 1; }
        inRun = false;
        reset();
        if ((n & 15) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
        }
    }
    std::printf("%llu %llu\n", (unsigned long long) n, (unsigned long long) done);
    return 0;
}
