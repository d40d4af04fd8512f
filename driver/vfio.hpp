// A model of the parts of the stream library malg's input and output use: an output stream records
// what is written as numbered tokens (letters, counts, elements) and where white space lies between
// them; an input stream delivers tokens that are arbitrary values or those of a record.
#pragma once
#include "vfm.hpp"
#include "malg/control/control.hpp"
#include "malg/linalg.hpp"
#include <algorithm>
#include <array>
#include <charconv>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <locale>
#include <numeric>
#include <sstream>
#include <string_view>
#include <system_error>
namespace vfio
{
enum : size_t { COUNT = 256, ELEMENT = 257, SIGNED = 258 };
struct record {
    size_t n = 0; // tokens so far
    size_t *kind = static_cast<size_t *>(vf_store()); // a letter, or one of the above
    size_t *sep = static_cast<size_t *>(vf_store());  // white space before the token: 1 blank, 2 new line
    size_t *cnt = static_cast<size_t *>(vf_store());  // the count
    double *re = static_cast<double *>(vf_store());   // the element
    double *im = static_cast<double *>(vf_store());
    size_t *wid = static_cast<size_t *>(vf_store());  // the width asked for
    size_t prec = 0;                                  // the precision of the last element
};
struct vf_string {
    bool made = false; // from what a stream has recorded
    const char *text = "";
    size_t n = 0;
    const size_t *kind = nullptr, *sep = nullptr, *cnt = nullptr;
    const double *re = nullptr, *im = nullptr;
    size_t prec = 0;
    vf_string() {}
    vf_string(const char *s) : text(s) {}
    explicit vf_string(const record &r) : made(true), n(r.n), kind(r.kind), sep(r.sep), cnt(r.cnt), re(r.re), im(r.im), prec(r.prec) {}
    size_t length() const
    {
        if (made)
            return static_cast<size_t>(vf_len(re[0], im[0], prec));
        return vf_n("text length");
    }
    size_t size() const { return length(); }
    bool empty() const { return vf_n("text length") == 0; }
};
struct vf_setw_t {
    int w;
};
struct vf_setprecision_t {
    int p;
};
struct vf_setfill_t {
};
inline vf_setw_t vf_setw(int w) { return vf_setw_t{ w }; }
inline vf_setprecision_t vf_setprecision(int p) { return vf_setprecision_t{ p }; }
inline vf_setfill_t vf_setfill(char) { return vf_setfill_t(); }
struct vf_ostream {
    vfio::record *to;
    bool plus = false;
    size_t wide = 0;
    std::streamsize prec = static_cast<std::streamsize>(vf_n("precision"));
    explicit vf_ostream(vfio::record *r = nullptr) : to(r) {}
    std::streamsize precision() const { return prec; }
    std::streamsize precision(std::streamsize p)
    {
        std::streamsize q = prec;
        prec = p;
        return q;
    }
    std::streamsize width(std::streamsize w)
    {
        std::streamsize q = static_cast<std::streamsize>(wide);
        wide = static_cast<size_t>(w);
        return q;
    }
    std::streamsize width() const { return static_cast<std::streamsize>(wide); }
    char fill(char) { return ' '; }
    std::ios_base::fmtflags flags() const { return std::ios_base::fmtflags(); }
    std::ios_base::fmtflags flags(std::ios_base::fmtflags f)
    {
        plus = (f & std::ios_base::showpos) != 0;
        return std::ios_base::fmtflags();
    }
    std::ios_base::fmtflags setf(std::ios_base::fmtflags f)
    {
        if (f & std::ios_base::showpos)
            plus = true;
        return std::ios_base::fmtflags();
    }
    void unsetf(std::ios_base::fmtflags f)
    {
        if (f & std::ios_base::showpos)
            plus = false;
    }
    bool good() const { return true; }
    bool fail() const { return false; }
    explicit operator bool() const { return true; }
    bool operator!() const { return false; }
    vf_ostream &flush() { return *this; }
    template <int D = 40> vf_ostream &write(const char *s, std::streamsize n)
    {
        if (n > 0) {
            put(*s);
            if constexpr (D > 0)
                write<D - 1>(s + 1, n - 1);
        }
        return *this;
    }
    vf_ostream &put(char c)
    {
        if (to != nullptr) {
            if (c == ' ' || c == '\n' || c == '\t') {
                to->sep[to->n] = c == '\n' ? 2 : 1;
            } else {
                to->kind[to->n] = static_cast<size_t>(c);
                ++to->n;
            }
        }
        return *this;
    }
    template <int D> void text(const char *s)
    {
        if (*s != 0) {
            put(*s);
            if constexpr (D > 0)
                text<D - 1>(s + 1);
        }
    }
    void element(double x, double y)
    {
        if (to != nullptr) {
            to->kind[to->n] = plus ? vfio::SIGNED : vfio::ELEMENT;
            to->re[to->n] = x;
            to->im[to->n] = y;
            to->wid[to->n] = wide;
            to->prec = static_cast<size_t>(prec);
            ++to->n;
        }
        wide = 0;
    }
    void count(size_t k)
    {
        if (to != nullptr) {
            to->kind[to->n] = vfio::COUNT;
            to->cnt[to->n] = k;
            ++to->n;
        }
    }
    vf_ostream &operator<<(double x) { return element(x, 0), *this; }
    vf_ostream &operator<<(float x) { return element(x, 0), *this; }
    vf_ostream &operator<<(int x) { return element(x, 0), *this; }
    vf_ostream &operator<<(size_t x) { return count(x), *this; }
    vf_ostream &operator<<(unsigned x) { return element(x, 0), *this; }
    vf_ostream &operator<<(long x) { return element(static_cast<double>(x), 0), *this; }
    vf_ostream &operator<<(bool x) { return element(x, 0), *this; }
    vf_ostream &operator<<(vf_ostream &(*f)(vf_ostream &)) { return f(*this); }
    vf_ostream &operator<<(std::ios_base &(*f)(std::ios_base &))
    {
        if (f == static_cast<std::ios_base &(*)(std::ios_base &)>(std::showpos))
            plus = true;
        if (f == static_cast<std::ios_base &(*)(std::ios_base &)>(std::noshowpos))
            plus = false;
        return *this;
    }
};
inline vf_ostream &operator<<(vf_ostream &o, vf_setw_t w) { return o.wide = static_cast<size_t>(w.w), o; }
inline vf_ostream &operator<<(vf_ostream &o, vf_setprecision_t p) { return o.prec = p.p, o; }
inline vf_ostream &operator<<(vf_ostream &o, vf_setfill_t) { return o; }
inline vf_ostream &operator<<(vf_ostream &o, char c) { return o.put(c); }
inline vf_ostream &operator<<(vf_ostream &o, const char *s) { return o.text<40>(s), o; }
inline vf_ostream &operator<<(vf_ostream &o, const vf_string &s)
{
    if (s.made)
        vf_unsupported();
    return o.text<40>(s.text), o;
}
inline vf_ostream &operator<<(vf_ostream &o, const std::complex<double> &z) { return o.element(z.real(), z.imag()), o; }
inline vf_ostream &operator<<(vf_ostream &o, const std::complex<float> &z) { return o.element(z.real(), z.imag()), o; }
inline vf_ostream &vf_endl(vf_ostream &o) { return o.put('\n'); }
inline vf_ostream &vf_flush(vf_ostream &o) { return o; }
struct vf_ofstream : vf_ostream {
    using vf_ostream::vf_ostream;
};
struct vf_stringstream : vf_ostream {
    record own;
    vf_stringstream()
    {
        to = &own;
        prec = 6;
    }
    vf_string str() const { return vf_string(own); }
    void str(const vf_string &s)
    {
        if (s.made || *s.text != 0)
            vf_unsupported();
        own.n = 0;
    }
    void clear() {}
};
inline vf_ostream vf_cerr, vf_cout;
struct vf_istream {
    vfio::record *from; // tokens of a record, or arbitrary ones
    size_t pos = 0;     // tokens read
    size_t end;         // tokens there are
    bool fine = true;
    bool sure = false; // every extraction succeeds
    bool zero = false; // a failed extraction stores zero (or nothing at all)
    vf_istream(vfio::record *r, size_t n) : from(r), end(n) {}
    bool fail() const { return !fine; }
    bool good() const { return fine; }
    bool eof() const { return !fine; }
    bool operator!() const { return !fine; }
    explicit operator bool() const { return fine; }
    template <typename T> vf_istream &number(T &x, size_t k)
    {
        bool was = fine;
        if (!sure && fine && (pos >= end || (from != nullptr && from->kind[pos] != k)))
            fine = false;
        if (!sure && !fine) {
            if (was && zero)
                x = T(0);
            return *this;
        }
        if constexpr (std::is_same_v<T, size_t>)
            x = from != nullptr ? from->cnt[pos] : static_cast<size_t>(vf_in_u("count", pos));
        else
            x = from != nullptr ? static_cast<T>(from->re[pos]) : vf::in<T>::at("number", pos);
        ++pos;
        return *this;
    }
    vf_istream &operator>>(double &x) { return number(x, vfio::ELEMENT); }
    vf_istream &operator>>(float &x) { return number(x, vfio::ELEMENT); }
    vf_istream &operator>>(int &x) { return number(x, vfio::ELEMENT); }
    vf_istream &operator>>(size_t &x) { return number(x, vfio::COUNT); }
};
inline vf_istream &operator>>(vf_istream &s, char &x)
{
    if (!s.sure && s.fine && (s.pos >= s.end || (s.from != nullptr && s.from->kind[s.pos] >= vfio::COUNT)))
        s.fine = false;
    if (s.sure || s.fine) {
        x = s.from != nullptr ? static_cast<char>(s.from->kind[s.pos]) : vf_c("letter");
        ++s.pos;
    }
    return s;
}
inline vf_istream &operator>>(vf_istream &s, std::complex<double> &x)
{
    if (!s.sure && s.fine && (s.pos >= s.end || (s.from != nullptr && s.from->kind[s.pos] != vfio::ELEMENT)))
        s.fine = false;
    if (s.sure || s.fine) {
        x = s.from != nullptr ? std::complex<double>(s.from->re[s.pos], s.from->im[s.pos]) : vf::in<std::complex<double>>::at("number", s.pos);
        ++s.pos;
    }
    return s;
}
struct vf_ifstream : vf_istream {
    using vf_istream::vf_istream;
};
} // namespace vfio
namespace std
{
using vfio::vf_string;
using vfio::vf_setw;
using vfio::vf_setprecision;
using vfio::vf_setfill;
using vfio::vf_ostream;
using vfio::vf_ofstream;
using vfio::vf_stringstream;
using vfio::vf_cerr;
using vfio::vf_cout;
using vfio::vf_istream;
using vfio::vf_ifstream;
using vfio::vf_endl;
using vfio::vf_flush;
} // namespace std
#define ostream vf_ostream
#define ofstream vf_ofstream
#define istream vf_istream
#define ifstream vf_ifstream
#define stringstream vf_stringstream
#define ostringstream vf_stringstream
#define string vf_string
#define setw vf_setw
#define setprecision vf_setprecision
#define setfill vf_setfill
#define cerr vf_cerr
#define cout vf_cout
#define endl vf_endl
#define flush vf_flush
#include "malg/io.hpp"
#undef ostream
#undef ofstream
#undef istream
#undef ifstream
#undef stringstream
#undef ostringstream
#undef string
#undef setw
#undef setprecision
#undef setfill
#undef cerr
#undef cout
#undef endl
#undef flush
