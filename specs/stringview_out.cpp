// operator<< of BasicStringView: formatted output of the characters through the stream's buffer, with padding
#include "vc.h"
#include <ios>
#include <sharemind/StringView.h>
using u64 = std::uint64_t;
struct VT : std::char_traits<char> {};      // gives a stream class of its own, specialised below

// Contract of the stream buffer: sputn and sputc append the characters they accept. Position J of the output is observed.
static u64 J, out;
static char at_j;
static bool reliable, failed, late;
struct Sink {
    std::streamsize sputn(char const * s, std::streamsize n) {
        late |= failed;
        vc_assert(n >= 0, "sputn gets a size");
        std::streamsize r = n;
        if (!reliable) {
            r = static_cast<std::streamsize>(vc_u64("accepted"));
            vc_assume(r >= 0 && r <= n);
        }
        if (J >= out && J - out < u64(r))
            at_j = s[J - out];
        out += u64(r);
        failed |= r != n;
        return r;
    }
    int sputc(char c) {
        late |= failed;
        if (!reliable && vc_bool("full")) {
            failed = true;
            return VT::eof();
        }
        if (J == out)
            at_j = c;
        ++out;
        return VT::to_int_type(c);
    }
};
static std::ios_base::fmtflags fl;
static std::streamsize w;
static char fillc;
static bool ready, err;
static Sink sink;
namespace std {
template <> class basic_ostream<char, VT> {
public:
    struct sentry {
        explicit sentry(basic_ostream &) {}
        explicit operator bool() const { return ready; }
    };
    streamsize width() const { return w; }
    streamsize width(streamsize n) { auto o = w; w = n; return o; }
    ios_base::fmtflags flags() const { return fl; }
    char fill() const { return fillc; }
    Sink * rdbuf() { return &sink; }
    void setstate(ios_base::iostate s) { vc_assert(s != ios_base::goodbit, "setstate sets an error bit"); err = true; }
    bool good() const { return !err; }
};
}
using SV = sharemind::BasicStringView<char, VT>;
using OS = std::basic_ostream<char, VT>;

// loop invariants: the fill characters written so far
static u64 start;
static char prev;
static bool filled() { return out >= start && (J < start ? at_j == prev : vc_implies(J < out, at_j == fillc)); }
static bool intact() { return !late && !failed && !err; }

static void setup() {
    vc_config("unwind", 2);
    J = vc_u64("J");
    out = 0; at_j = 0; failed = late = err = false; ready = true;
    fillc = (char) vc_u8("fill");
    w = static_cast<std::streamsize>(vc_u64("width"));
    vc_assume(w >= 0);
    fl = static_cast<std::ios_base::fmtflags>(vc_u32("flags"));
    vc_hint0(&filled); vc_hint0(&intact);
}
template <bool left> static void put() {
    u64 const n = vc_len("n");
    char const * const p = vc_array<char>(n, "p");
    setup();
    reliable = true;
    vc_assume(((fl & std::ios_base::adjustfield) == std::ios_base::left) == left);
    u64 const pad = u64(w) > n ? u64(w) - n : 0;
    start = left ? n : 0;
    prev = left && J < n ? p[J] : 0;
    OS os;
    OS & r = os << SV(p, n);
    vc_assert(&r == &os, "returns the stream");
    vc_assert(out == n + pad, "max(size, width) characters are written");
    if (J < out) {
        char const want = left ? (J < n ? p[J] : fillc) : (J < pad ? fillc : p[J - pad]);
        vc_assert(at_j == want, "the characters of the view, padded with the fill character on the other side");
        vc_cover("inside");
    }
    vc_assert(w == 0, "the width is reset");
    vc_assert(!err, "no error is signalled");
    vc_cover("put");
}
VC_PROOF(out_left) { put<true>(); }
VC_PROOF(out_right) { put<false>(); }
VC_PROOF(out_not_ready) {
    u64 const n = vc_len("n");
    char const * const p = vc_array<char>(n, "p");
    setup();
    ready = false;
    OS os;
    vc_assert(&(os << SV(p, n)) == &os && out == 0 && !err, "nothing is written when the sentry fails");
    vc_cover("not ready");
}
VC_PROOF(out_failing) {
    u64 const n = vc_len("n");
    char const * const p = vc_array<char>(n, "p");
    setup();
    reliable = false;
    OS os;
    os << SV(p, n);
    vc_assert(failed == err, "an error is signalled exactly when the buffer refused characters");
    vc_assert(!late, "nothing more is written after the buffer refused characters");
    vc_assert(w == 0, "the width is reset");
    if (failed) vc_cover("failed");
    vc_cover("any");
}
