// The code under observation reports on std::cout / stdout; the monitors report with FAIL lines on the original stdout.
#pragma once
#include <iostream>
#include <sstream>
#include <streambuf>
namespace vh {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
inline void muteCout() { static NullBuf *b = new NullBuf; std::cout.rdbuf(b); std::cerr.rdbuf(b); }
struct CaptureCout {
    std::ostringstream os; std::streambuf *old;
    CaptureCout() { old = std::cout.rdbuf(os.rdbuf()); }
    ~CaptureCout() { std::cout.rdbuf(old); }
    std::string str() const { return os.str(); }
};
} // namespace vh
