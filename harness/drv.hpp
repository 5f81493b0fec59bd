// Common part of the drivers.
//
// A driver reads cases on stdin, one per line: "<id> <op> <args...>"; it answers
// one line per case, flushed: "<id> ok <json>" or "<id> exc" when the code under
// test threw an exception.  Before running the case it writes "<id> begin", so
// that the one which crashed or hung is known.  Nothing is judged here: what a
// result should be is only said by the specification.
#pragma once
#include <unistd.h>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "ppocr/image/image_from_string.hpp"
#include "ppocr/image/image.hpp"

namespace drv {

// numbers are given to a 32-bit signed checker
inline long num(unsigned long v) { return v > 1000000000ul ? -1 : static_cast<long>(v); }

struct Json
{
    std::string s;
    bool comma = false;
    Json & sep() { if (comma) s += ','; comma = true; return *this; }
    Json & key(char const * k) { sep(); s += '"'; s += k; s += "\":"; comma = false; return *this; }
    Json & val(long v) { sep(); s += std::to_string(v); return *this; }
    Json & u(unsigned long v) { return val(num(v)); }
    Json & b(bool v) { return val(v ? 1 : 0); }
    Json & open(char c) { sep(); s += c; comma = false; return *this; }
    Json & close(char c) { s += c; comma = true; return *this; }
    Json & bytes(char const * p, std::size_t n)
    {
        open('[');
        for (std::size_t i = 0; i < n; ++i) val(static_cast<unsigned char>(p[i]));
        return close(']');
    }
    Json & bytes(std::string const & x) { return bytes(x.data(), x.size()); }
    Json & img(ppocr::Image const & i)
    {
        open('{').key("w").u(i.width()).key("h").u(i.height()).key("p");
        // no file or image examined is that large: the size alone is wrong
        std::size_t const n = std::size_t(i.width()) * i.height();
        bytes(i.data(), n < 4000000 ? n : 0);
        return close('}');
    }
};

inline std::string unhex(std::string const & h)
{
    std::string r;
    if (h == "-") return r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) {
        r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    }
    return r;
}

using Args = std::istringstream;

inline std::string hexarg(Args & a) { std::string h; a >> h; return unhex(h); }
inline unsigned uarg(Args & a) { unsigned long n = 0; a >> n; return static_cast<unsigned>(n); }

// w h pixels, pixels as given ("-" stands for itself: raw text, no blank)
inline ppocr::Image imgarg(Args & a)
{
    unsigned w = uarg(a), h = uarg(a);
    std::string p; a >> p;
    if (!p.empty() && p.size() == std::size_t(w) * h && p.find_first_not_of("-x") == std::string::npos) {
        return ppocr::image_from_string({w, h}, p.c_str());
    }
    ppocr::PtrImageData d(new ppocr::Pixel[p.size()]);
    std::memcpy(d.get(), p.data(), p.size());
    return ppocr::Image({w, h}, std::move(d));
}

// a small drawing whose columns and rows are repeated: gw gh widths heights cells
struct StretchArg
{
    unsigned gw, gh;
    std::vector<unsigned> cw, rh;
    std::string g;
    explicit StretchArg(Args & a) : gw(uarg(a)), gh(uarg(a))
    {
        for (unsigned i = 0; i < gw; ++i) cw.push_back(uarg(a));
        for (unsigned i = 0; i < gh; ++i) rh.push_back(uarg(a));
        a >> g;
    }
    unsigned width() const { unsigned n = 0; for (unsigned x : cw) n += x; return n; }
    unsigned height() const { unsigned n = 0; for (unsigned x : rh) n += x; return n; }
    // f(cell) for each pixel, row by row; end(row) after each row
    template<class F, class E> void each(F f, E end) const
    {
        for (unsigned r = 0; r < gh; ++r)
            for (unsigned k = 0; k < rh[r]; ++k) {
                for (unsigned c = 0; c < gw; ++c)
                    for (unsigned n = 0; n < cw[c]; ++n) f(r * gw + c);
                end();
            }
    }
    ppocr::Image image() const
    {
        ppocr::PtrImageData d(new ppocr::Pixel[std::size_t(width()) * height()]);
        char * p = d.get();
        each([&](unsigned i) { *p++ = g[i]; }, []{});
        return ppocr::Image({width(), height()}, std::move(d));
    }
};

// the files which are open: the next number that the system would give
inline int next_file() { int const fd = ::dup(0); if (fd >= 0) ::close(fd); return fd; }

using Fn = std::function<void(Args &, Json &)>;

inline int run(std::map<std::string, Fn> const & ops)
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        Args a(line);
        std::string id, op;
        a >> id >> op;
        auto it = ops.find(op);
        if (it == ops.end()) { std::fprintf(stderr, "unknown op %s\n", op.c_str()); return 3; }
        std::printf("%s begin\n", id.c_str());
        std::fflush(stdout);
        int const before = next_file();
        Json j;
        bool ok = true;
        try { it->second(a, j); }
        catch (std::exception const &) { ok = false; }
        if (next_file() != before) { std::fprintf(stderr, "a file stays open\n"); std::abort(); }
        if (ok) std::printf("%s ok %s\n", id.c_str(), j.s.c_str());
        else    std::printf("%s exc\n", id.c_str());
        std::fflush(stdout);
    }
    return 0;
}

}
