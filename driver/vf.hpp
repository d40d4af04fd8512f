// Vocabulary of the analysis drivers. Nothing here is ever executed: the functions declared
// extern "C" have no definition, the analysis gives them their meaning.
#pragma once
#include <complex>
#include <cstddef>
#include <limits>
#include <cassert>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

extern "C" {
/// Any size (a non-negative integer).
std::size_t vf_n(const char *name);
/// Any number.
double vf_r(const char *name);
float vf_rf(const char *name);
int vf_i(const char *name);
bool vf_b(const char *name);
char vf_c(const char *name);
/// A matrix of which only the abstract interface is known. The kind names the element type.
void *vf_absmat(const char *name, int kind);
/// Makes the storage at p hold the arbitrary values called name.
void vf_fill(const void *p, const char *name, int kind);
/// The element at idx of the arbitrary values called name.
double vf_in_d(const char *name, std::size_t idx);
float vf_in_f(const char *name, std::size_t idx);
int vf_in_i(const char *name, std::size_t idx);
unsigned vf_in_u(const char *name, std::size_t idx);
bool vf_in_b(const char *name, std::size_t idx);
/// Restricts the analysis to the states that satisfy the condition.
void vf_assume(bool c);
/// Storage without limit that holds zeros.
void *vf_store();
/// Ends the analysis of the probe without a result.
void vf_unsupported();
/// Obligations.
void vf_eq_d(const char *tag, double a, double b);
void vf_eq_f(const char *tag, float a, float b);
void vf_eq_n(const char *tag, std::size_t a, std::size_t b);
void vf_eq_i(const char *tag, int a, int b);
void vf_eq_b(const char *tag, bool a, bool b);
void vf_eq_p(const char *tag, const void *a, const void *b);
void vf_true(const char *tag, bool a);
/// The rest of the probe throws exactly when the condition holds.
void vf_throws_iff(const char *tag, bool c);
/// The rest of the probe may throw only when the condition holds.
void vf_throws_only_if(const char *tag, bool c);
/// From here on, memory allocation may fail.
void vf_alloc_may_fail();
/// At every exceptional exit the storage at p (n elements) still holds the values called name.
void vf_keeps(const char *tag, const void *p, const char *name);
/// The same for the elements of the abstract matrix called name.
void vf_keeps_m(const char *tag, const char *name);
/// At every exceptional exit the fields of the object at p are what they are now.
void vf_guard_object(const char *tag, const void *p);
/// A failed assertion counts as a rejection in this probe.
void vf_may_assert();
/// Parts of an element of arbitrary complex values.
double vf_in_re(const char *name, std::size_t idx);
double vf_in_im(const char *name, std::size_t idx);
/// Arbitrary functions.
double vf_f1(double x);
double vf_f2(double x, double y);
int vf_i1(int x);
/// From here on the determinant is an arbitrary function of the order and of every element (see alg.tpl).
void vf_opaque_det();
double vf_det_entry(std::size_t r, std::size_t c, double x);
double vf_det(std::size_t n, double entries);
/// The number of characters a number with these parts is printed with.
int vf_len(double re, double im, std::size_t precision);
/// From here on no floating point number is divided by zero.
void vf_no_zero_division(const char *tag);
void vf_note(const char *tag);
}

#define PROBE(n) extern "C" void vf_probe_##n()

namespace vf
{
template <typename T> struct kind;
template <> struct kind<double> { enum { v = 'd' }; };
template <> struct kind<float> { enum { v = 'f' }; };
template <> struct kind<int> { enum { v = 'i' }; };
template <> struct kind<long> { enum { v = 'l' }; };
template <> struct kind<unsigned> { enum { v = 'u' }; };
template <> struct kind<unsigned long> { enum { v = 'U' }; };
template <> struct kind<bool> { enum { v = 'b' }; };
template <> struct kind<std::complex<double>> { enum { v = 'z' }; };
template <> struct kind<std::complex<float>> { enum { v = 'c' }; };
template <typename T> struct kind<const T> : kind<T> { };

/// An element of the named input.
template <typename T> struct in;
template <> struct in<double> { static double at(const char *n, std::size_t i) { return vf_in_d(n, i); } };
template <> struct in<float> { static float at(const char *n, std::size_t i) { return vf_in_f(n, i); } };
template <> struct in<int> { static int at(const char *n, std::size_t i) { return vf_in_i(n, i); } };
template <> struct in<unsigned> { static unsigned at(const char *n, std::size_t i) { return vf_in_u(n, i); } };
template <> struct in<std::complex<double>> { static std::complex<double> at(const char *n, std::size_t i) { return std::complex<double>(vf_in_re(n, i), vf_in_im(n, i)); } };
template <> struct in<bool> { static bool at(const char *n, std::size_t i) { return vf_in_b(n, i); } };

inline void eq(const char *t, double a, double b) { vf_eq_d(t, a, b); }
inline void eq(const char *t, float a, float b) { vf_eq_f(t, a, b); }
inline void eq(const char *t, int a, int b) { vf_eq_i(t, a, b); }
inline void eq(const char *t, unsigned a, unsigned b) { vf_eq_n(t, a, b); }
inline void eq(const char *t, std::size_t a, std::size_t b) { vf_eq_n(t, a, b); }
inline void eq(const char *t, bool a, bool b) { vf_eq_b(t, a, b); }
template <typename T> inline void eq(const char *t, const std::complex<T> &a, const std::complex<T> &b)
{
    eq(t, a.real(), b.real());
    eq(t, a.imag(), b.imag());
}
} // namespace vf
