// Shorthand for the probes over malg's types.
#pragma once
#include "vf.hpp"
#include "malg/complex_math.hpp"
#include "malg/matrix.hpp"
#include "malg/view.hpp"
#include "malg/math.hpp"
#include "malg/utility.hpp"
using malg::Matrix;
using malg::MatrixBase;
using malg::Vector;
using malg::View;
using malg::CofactorView;
using malg::Range;
using std::size_t;
typedef std::complex<double> cplx;
#define ABS(T, n) (*static_cast<const MatrixBase<T> *>(vf_absmat(n, vf::kind<T>::v)))
#define ABSM(T, n) (*static_cast<MatrixBase<T> *>(vf_absmat(n, vf::kind<T>::v)))
/// A matrix n-by-m whose elements are the values called name.
#define MAT(T_, v_, n_, r_, c_) Matrix<T_> v_(r_, c_); vf_fill(v_.data(), n_, vf::kind<T_>::v)
#define VEC(T_, v_, n_, s_) Vector<T_> v_(s_); vf_fill(v_.data(), n_, vf::kind<T_>::v)
/// Makes the layout of the virtual interface part of every driver.
extern "C" void vf_anchor() { Matrix<double> m(1, 1); }

namespace vf
{
/// An initializer list over n elements at p (the layout every ABI in use here has).
template <typename T> inline std::initializer_list<T> list(const T *p, std::size_t n)
{
    struct { const T *p; std::size_t n; } raw = { p, n };
    static_assert(sizeof(raw) == sizeof(std::initializer_list<T>));
    std::initializer_list<T> l;
    __builtin_memcpy(&l, &raw, sizeof(l));
    return l;
}
/// The storage invariant of a matrix.
template <typename T> inline void stored(Matrix<T> &m)
{
    const Matrix<T> &c = m;
    vf_eq_n("C08:stored elements", static_cast<size_t>(m.end() - m.begin()), m.rows() * m.cols());
    vf_eq_n("C08:stored elements (constant)", static_cast<size_t>(c.end() - c.begin()), m.rows() * m.cols());
    vf_eq_n("C08:size", m.size(), m.rows() * m.cols());
    vf_eq_b("C08:empty", m.empty(), m.rows() * m.cols() == 0);
    vf_eq_p("C08:range begins at the data", m.begin(), m.data());
}
template <typename T> inline void stored(Vector<T> &m)
{
    const Vector<T> &c = m;
    vf_eq_n("C08:stored elements", static_cast<size_t>(m.end() - m.begin()), m.size());
    vf_eq_n("C08:stored elements (constant)", static_cast<size_t>(c.end() - c.begin()), m.size());
    vf_eq_n("C08:stored elements (cbegin)", static_cast<size_t>(c.cend() - c.cbegin()), m.size());
    vf_eq_b("C08:empty", m.empty(), m.size() == 0);
    vf_eq_p("C08:range begins at the data", m.begin(), m.data());
}
} // namespace vf
