// captures what is printed to a std::ostream, with the contract stub or natively
#ifndef VC_PRINT_H
#define VC_PRINT_H
#include <ostream>
#ifdef VC_NATIVE
#include <sstream>
struct Printed {
    std::ostringstream os;
    std::string s;
    void flags(std::ios_base::fmtflags f) { os.flags(f); }
    std::ostream & stream() { return os; }
    void finish() { s = os.str(); }
    std::size_t len() const { return s.size(); }
    char at(std::size_t i) const { return s[i]; }
};
#else
struct Printed {
    std::ostream os;
    void flags(std::ios_base::fmtflags f) { os.fl = f; }
    std::ostream & stream() { return os; }
    void finish() {}
    std::size_t len() const { return os.len; }
    char at(std::size_t i) const { return os.buf[i]; }
};
#endif
#endif
