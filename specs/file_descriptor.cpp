// FileDescriptor owns its descriptor; syscallLoop retries interrupted calls. The system calls are contracts, reached
// by naming them vcs_* for the headers (this renames FileDescriptor::close consistently, and nothing else).
#include <cerrno>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <utility>
#include "vc.h"
#define private public
#include <array>
#include <sharemind/Exception.h>
#undef private
#include <sharemind/ThrowNested.h>
namespace sys {
static int err;
static unsigned closes; static int closed;          // number of close() calls, and the descriptor of the last
static unsigned calls; static int lastFd, lastCmd, lastArg, result, hadErr;     // fcntl
static int getResult;
static bool nextOk;
}
static int vcs_close(int fd) noexcept {
    ++sys::closes; sys::closed = fd;
    if (vc_bool("closeFails")) { sys::err = static_cast<int>(vc_u32("errno")); return -1; }
    return 0;
}
static int vcs_call(int fd, int cmd, int arg) noexcept {
    ++sys::calls; sys::lastFd = fd; sys::lastCmd = cmd; sys::lastArg = arg;
    if (vc_bool("fails")) {
        int e = static_cast<int>(vc_u32("errno"));
        if (!vc_is_symbolic() && sys::calls > 3 && (e == EAGAIN || e == EINTR)) e = EBADF;
        sys::err = e; sys::hadErr = e; sys::result = -1;
    } else {
        int const r = static_cast<int>(vc_u32("result"));
        vc_assume(r >= 0);
        sys::result = cmd == F_SETFD || cmd == F_SETFL ? 0 : r;
        if (cmd == F_GETFD || cmd == F_GETFL) sys::getResult = r;
    }
    return sys::result;
}
static struct {
    int operator()(int fd, int cmd) const noexcept { return vcs_call(fd, cmd, 0); }
    int operator()(int fd, int cmd, int arg) const noexcept { return vcs_call(fd, cmd, arg); }
} vcs_fcntl;
static bool inBuffer; static char const * text = "?";
#ifndef VC_NATIVE           // what the system has to say: of any length
extern "C" char * vc_contract_strerror_r(int, char * buf, std::size_t n) {
    vc_assert(n > 0, "strerror_r is given room");
    if ((inBuffer = vc_bool("inBuffer"))) { vc_havoc(buf, n - 1u, "message"); buf[n - 1u] = 0; return buf; }
    return const_cast<char *>(text);
}
#endif
#undef errno
#define errno ::sys::err
#define close vcs_close
#define fcntl vcs_fcntl
#define private public
#define protected public
#include <sharemind/FileDescriptor.h>
#undef private
#undef protected
#undef close
#undef fcntl
#undef errno
using sharemind::FileDescriptor;
using u64 = std::uint64_t;
static int fd(char const * n) { return static_cast<int>(vc_u32(n)); }
static void reset() { sys::closes = sys::calls = 0; }
static bool closedJust(int x) { return x == -1 ? sys::closes == 0 : sys::closes == 1 && sys::closed == x; }

VC_PROOF(construct) {
    int const x = fd("x");
    reset();
    {
        FileDescriptor a(x), e;
        vc_assert(a.nativeHandle() == x && e.nativeHandle() == -1, "holds the descriptor given, none by default");
        vc_assert(a.valid() == (x >= 0) && !e.valid(), "valid for non-negative descriptors");
        FileDescriptor b(std::move(a));
        vc_assert(b.nativeHandle() == x && a.nativeHandle() == -1, "moving transfers the descriptor");
        vc_assert(sys::closes == 0, "nothing is closed while it is owned");
    }
    vc_assert(closedJust(x), "the owner closes it exactly once");
    vc_cover("construct");
}
VC_PROOF(assign) {
    int const x = fd("x"), y = fd("y");
    vc_assume(x == -1 || x != y);       // a descriptor has one owner
    reset();
    {
        FileDescriptor a(x), b(y);
        FileDescriptor & r = (a = std::move(b));
        vc_assert(&r == &a && a.nativeHandle() == y && b.nativeHandle() == -1, "assignment transfers the descriptor");
        vc_assert(closedJust(x), "and closes exactly the one replaced");
        reset();
        FileDescriptor & s = a;
        a = std::move(s);
        vc_assert(a.nativeHandle() == y && sys::closes == 0, "self-assignment changes nothing");
    }
    vc_assert(closedJust(y), "the owner closes it exactly once");
    vc_cover("assign");
}
VC_PROOF(change) {
    int const x = fd("x"), y = fd("y");
    unsigned const op = vc_u8("op");
    vc_assume(op < 3);
    reset();
    int left;
    {
        FileDescriptor a(x);
        switch (op) {
        case 0:
            a.reset(y); left = y;
            vc_assert(a.nativeHandle() == y, "reset takes the descriptor given");
            vc_assert(x == y ? sys::closes == 0 : closedJust(x), "reset closes exactly the one replaced");
            break;
        case 1: {
            int const r = a.release(); left = -1;
            vc_assert(r == x && a.nativeHandle() == -1 && sys::closes == 0, "release gives the descriptor away, open");
            break;
        }
        default:
            a.vcs_close(); left = -1;
            vc_assert(closedJust(x) && a.nativeHandle() == -1, "close closes once and forgets");
        }
        reset();
    }
    vc_assert(closedJust(left), "the owner closes it exactly once");
    vc_cover("change");
}
static bool retryInv() { return sys::closes == 0; }
VC_PROOF(duplicate) {
    vc_config("unwind", 1);
    vc_hint0(&retryInv);
    int const x = fd("x");
    reset();
    int got = -2; int nested = -2;
    {
        FileDescriptor a(x);
        try {
            FileDescriptor d(a.duplicate());
            got = d.nativeHandle();
            vc_assert(got == sys::result && got != -1, "duplicate owns the new descriptor");
            vc_assert(sys::lastFd == x && sys::lastCmd == F_DUPFD_CLOEXEC && sys::lastArg == 0, "of this descriptor, closed on exec");
        } catch (sharemind::Exception const & e) {
            vc_assert(sys::result == -1 && sys::hadErr != EINTR && sys::hadErr != EAGAIN, "only a failure that is not temporary is reported");
            try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & n) { nested = n.errorNumber(); }
            vc_assert(nested == sys::hadErr, "with its error number");
        }
        vc_assert(a.nativeHandle() == x, "the original is kept");
        vc_assert(got == -2 ? sys::closes == 0 : closedJust(got), "the duplicate is closed by its owner, the original is not");
        reset();
    }
    vc_assert(closedJust(x), "the owner closes it exactly once");
    vc_cover("duplicate");
}
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(std::exception, GetE, "get");
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(std::exception, SetE, "set");
VC_PROOF(add_flags) {
    vc_config("unwind", 1);
    int const x = fd("x"), f = fd("flags");
    bool const fl = vc_bool("fl");
    reset();
    int what = 0;
    try {
        if (fl) sharemind::fcntlAddFl<GetE, SetE>(x, f); else sharemind::fcntlAddFd<GetE, SetE>(x, f);
    } catch (GetE const &) { what = 1; } catch (SetE const &) { what = 2; }
    vc_assert(sys::lastFd == x, "on this descriptor");
    vc_assert(sys::lastCmd == (what == 1 ? (fl ? F_GETFL : F_GETFD) : (fl ? F_SETFL : F_SETFD)), "reads the flags, then sets them");
    if (what != 1) vc_assert(sys::lastArg == (sys::getResult | f), "the flags read and the ones added");
    vc_assert((what == 0) == (sys::result != -1), "a failure is reported");
    if (what) vc_assert(sys::hadErr != EINTR && sys::hadErr != EAGAIN, "only a failure that is not temporary is reported");
    vc_cover("flags");
}
VC_PROOF(errno_exception) {
    // the message is always terminated within its buffer, and is what the system says as far as it fits
    int const e = fd("e");
    u64 const len = vc_len("len"), j = vc_ghost_u64();
    char * const t = vc_array<char>(len + 1u, "text");
    vc_assume(t[len] == 0);
    vc_instantiate(t + len);
    text = t; (void) inBuffer;
    sharemind::ErrnoException x(e);
    sharemind::ErrnoException y(x);
    vc_assert(x.errorNumber() == e && y.errorNumber() == e, "the error number is kept");
    char const * const m = y.what();
    vc_assert(m == y.m_message.data(), "the message is the object's own");
    if (!vc_is_symbolic()) return;
    u64 const L = std::strlen(t), last = sharemind::ErrnoException::BUFFER_SIZE - 1u;
    if (inBuffer) vc_assert(m[last] == 0, "the message is terminated");
    else {
        u64 const w = L < last ? L : last;
        vc_assert(m[w] == 0, "the message is terminated");
        vc_instantiate(t + j);
        if (j < w) vc_assert(m[j] == t[j], "the message is what the system says, as far as it fits");
    }
    vc_cover("errno");
}
