#!/usr/bin/env python3
"""writes driver/p_view.cpp: views (C13) and minors (C14)"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''// Views and minors. Written by tools/gen_view.py.
#include "vfm.hpp"
namespace utility = malg::utility;
namespace
{
size_t clip(size_t start, size_t stop, size_t n)
{
    size_t s = stop < n ? stop : n;
    return s > start ? s - start : 0;
}
// shape and elements of any window onto the matrix called S (n-by-m)
template <typename T, typename W>
inline void window(W &w, size_t n, size_t m, size_t r0, size_t r1, size_t c0, size_t c1)
{
    const W &cw = w;
    size_t h = clip(r0, r1, n), k = clip(c0, c1, m);
    vf_eq_n("rows", w.rows(), h);
    vf_eq_n("cols", w.cols(), k);
    vf_eq_n("size", w.size(), h * k);
    vf_eq_b("empty", w.empty(), h == 0 || k == 0);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < h && j < k);
    vf::eq("C13:at", w.at(i, j), vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
    vf::eq("C13:call", w(i, j), vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
    vf::eq("C13:at const", cw.at(i, j), vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
    vf::eq("C13:call const", cw(i, j), vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
    vf::eq("C13:linear", w[i * k + j], vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
    vf::eq("C13:linear const", cw[i * k + j], vf::in<T>::at("S", (r0 + i) * m + (c0 + j)));
}
'''
BODY = {
 # name: (props, body)
 'shape': ('C13', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    size_t h = clip(r0, r1, n), k = clip(c0, c1, m);
    vf_eq_n("rows", w.rows(), h);
    vf_eq_n("cols", w.cols(), k);
    vf_eq_n("size", w.size(), h * k);
    vf_eq_b("empty", w.empty(), h == 0 || k == 0);
    const MatrixBase<T> &b = w;
    vf_eq_n("rows base", b.rows(), h);
    vf_eq_n("cols base", b.cols(), k);
    vf_eq_n("size base", b.size(), h * k);
    vf_eq_b("empty base", b.empty(), h == 0 || k == 0);
    vf_eq_p("data", w.data(), A.data());
    vf_eq_p("data const", cw.data(), A.data());
'''),
 'element': ('C13', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("at", &w.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call", &w(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("at const", &cw.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call const", &cw(i, j), &A.at(r0 + i, c0 + j));
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_p("at base", &b.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call base", &b(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("at base const", &cb.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call base const", &cb(i, j), &A.at(r0 + i, c0 + j));
'''),
 'linear': ('C13_C12', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < r1 - r0 && j < c1 - c0);
#ifdef ROW_MAJOR
    size_t pos = i * (c1 - c0) + j;
#else
    size_t pos = i + (r1 - r0) * j;
#endif
    vf_eq_p("linear", &w[pos], &A(r0 + i, c0 + j));
    vf_eq_p("linear const", &cw[pos], &A(r0 + i, c0 + j));
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_p("linear base", &b[pos], &A(r0 + i, c0 + j));
    vf_eq_p("linear base const", &cb[pos], &A(r0 + i, c0 + j));
'''),
 'constview': ('C13_C29', '''    MAT(T, A, "S", n, m);
    const Matrix<T> &B = A;
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    auto w = B(Range{ r0, r1 }, Range{ c0, c1 });
    static_assert(std::is_same_v<decltype(w), View<const Matrix<T>>>);
    vf_eq_n("rows", w.rows(), clip(r0, r1, n));
    vf_eq_n("cols", w.cols(), clip(c0, c1, m));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("at", &w.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call", &w(i, j), &A.at(r0 + i, c0 + j));
    const MatrixBase<const T> &cb = w;
    vf_eq_p("at base", &cb.at(i, j), &A.at(r0 + i, c0 + j));
'''),
 'calls': ('C13_C29', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    auto w = A(Range{ r0, r1 }, Range{ c0, c1 });
    static_assert(std::is_same_v<decltype(w), View<Matrix<T>>>);
    vf_eq_n("rows", w.rows(), clip(r0, r1, n));
    vf_eq_n("cols", w.cols(), clip(c0, c1, m));
    auto u = utility::view(A, r0, r1, c0, c1);
    vf_eq_n("rows of view", u.rows(), clip(r0, r1, n));
    vf_eq_n("cols of view", u.cols(), clip(c0, c1, m));
    auto all = A(Range::all(), Range::all());
    vf_eq_n("all rows", all.rows(), n);
    vf_eq_n("all cols", all.cols(), m);
    auto va = utility::view(A);
    vf_eq_n("all rows of view", va.rows(), n);
    vf_eq_n("all cols of view", va.cols(), m);
    View<Matrix<T>> vr(&A, Range{ r0, r1 });
    vf_eq_n("rows of range", vr.rows(), clip(r0, r1, n));
    vf_eq_n("cols of range", vr.cols(), m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("element", &w(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("element of view", &u(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("element of all", &all(r0 + i, c0 + j), &A(r0 + i, c0 + j));
    vf_eq_p("element of view all", &va(r0 + i, c0 + j), &A(r0 + i, c0 + j));
    vf_eq_p("element of range", &vr(i, c0 + j), &A(r0 + i, c0 + j));
'''),
 'rowcol': ('C13', '''    MAT(T, A, "S", n, m);
    auto r = vf_n("r"), c = vf_n("c"), a = vf_n("a"), b = vf_n("b");
    vf_assume(r < n && c < m && a < b);
    auto x = utility::row(A, r, a, b);
    vf_eq_n("rows of row", x.rows(), 1);
    vf_eq_n("cols of row", x.cols(), clip(a, b, m));
    auto y = utility::col(A, c, a, b);
    vf_eq_n("rows of col", y.rows(), clip(a, b, n));
    vf_eq_n("cols of col", y.cols(), 1);
    auto x2 = utility::row(A, r);
    auto y2 = utility::col(A, c);
    vf_eq_n("rows of row, all", x2.rows(), 1);
    vf_eq_n("cols of row, all", x2.cols(), m);
    vf_eq_n("rows of col, all", y2.rows(), n);
    vf_eq_n("cols of col, all", y2.cols(), 1);
    vf_eq_p("element of row, all", &x2(0, c), &A(r, c));
    vf_eq_p("element of col, all", &y2(r, 0), &A(r, c));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(a, b, n) && j < clip(a, b, m));
    vf_eq_p("element of row", &x(0, j), &A(r, a + j));
    vf_eq_p("element of col", &y(i, 0), &A(a + i, c));
'''),
 'write': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && c0 < c1 && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    const T old = A(p, q);
    const T x = vf::in<T>::at("x", 0);
    w(i, j) = x;
    vf::eq("write", A(p, q), (p == r0 + i && q == c0 + j) ? x : old);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
'''),
 'writelinear': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(i < r1 - r0 && j < c1 - c0);
    const T old = A(p, q);
    const T x = vf::in<T>::at("x", 0);
#ifdef ROW_MAJOR
    w[i * (c1 - c0) + j] = x;
#else
    w[i + (r1 - r0) * j] = x;
#endif
    vf::eq("write", A(p, q), (p == r0 + i && q == c0 + j) ? x : old);
'''),
 'assignabs': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    auto &back = (w = B);
    vf_eq_p("returns itself", &back, &w);
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0, q - c0);
    vf::eq("assigned", A(p, q), want);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
'''),
 'assignmat': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    MAT(T, B, "B", r1 - r0, c1 - c0);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    w = B;
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0, q - c0);
    vf::eq("assigned", A(p, q), want);
'''),
 'assignsame': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto a = vf_n("a"), b = vf_n("b"), c = vf_n("c"), d = vf_n("d"), h = vf_n("h"), k = vf_n("k"), p = vf_n("p"), q = vf_n("q");
    vf_assume(h > 0 && k > 0 && a + h <= n && b + k <= m && c + h <= n && d + k <= m && p < n && q < m);
    View<Matrix<T>> w(&A, a, a + h, b, b + k), v(&A, c, c + h, d, d + k);
    const T old = A(p, q);
    bool in = p >= a && p < a + h && q >= b && q < b + k;
    T want = old;
    if (in)
        want = A(p - a + c, q - b + d);
    w = v;
    vf::eq("assigned from an overlapping window", A(p, q), want);
'''),
 'assignother': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q"), k = vf_n("k"), l = vf_n("l"), s = vf_n("s"), t = vf_n("t");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m && s + (r1 - r0) <= k && t + (c1 - c0) <= l);
    MAT(T, B, "B", k, l);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    View<const Matrix<T>> v(&B, s, s + (r1 - r0), t, t + (c1 - c0));
    w = v;
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0 + s, q - c0 + t);
    vf::eq("assigned", A(p, q), want);
'''),
 'assignlist': ('C13_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), c0 = vf_n("c0"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 + 2 <= n && c0 + 3 <= m && p < n && q < m);
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("a", 1), c = vf::in<T>::at("a", 2), d = vf::in<T>::at("a", 3), e = vf::in<T>::at("a", 4), f = vf::in<T>::at("a", 5);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r0 + 2, c0, c0 + 3);
    w = { { a, b, c }, { d, e, f } };
    vf::eq("0,0", A(r0, c0), a);
    vf::eq("0,1", A(r0, c0 + 1), b);
    vf::eq("0,2", A(r0, c0 + 2), c);
    vf::eq("1,0", A(r0 + 1, c0), d);
    vf::eq("1,1", A(r0 + 1, c0 + 1), e);
    vf::eq("1,2", A(r0 + 1, c0 + 2), f);
    vf_assume(p < r0 || p >= r0 + 2 || q < c0 || q >= c0 + 3);
    vf::eq("outside", A(p, q), old);
'''),
 'badlist': ('C13_C06_C01', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("a", 1), c = vf::in<T>::at("a", 2), d = vf::in<T>::at("a", 3);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(r1 - r0 != 2 || c1 - c0 != 2);
    w = { { a, b }, { c, d } };
    vf::eq("an incompatible list changes nothing", A(p, q), old);
'''),
 'copyout': ('C13_C09_C08', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    Matrix<T> B(w);
    vf_eq_n("rows", B.rows(), r1 - r0);
    vf_eq_n("cols", B.cols(), c1 - c0);
    vf::stored(B);
    vf_assume(i < r1 - r0 && j < c1 - c0);
    vf::eq("element", B(i, j), A(r0 + i, c0 + j));
'''),
 'viewofview': ('C13', '''    MAT(T, A, "S", n, m);
    auto a = vf_n("a"), b = vf_n("b"), c = vf_n("c"), d = vf_n("d"), e = vf_n("e"), f = vf_n("f"), g = vf_n("g"), h = vf_n("h"), i = vf_n("i"), j = vf_n("j");
    vf_assume(a < b && c < d && e < f && g < h && b <= n && d <= m);
    typedef View<Matrix<T>> V1;
    V1 w(&A, a, b, c, d);
    View<V1> v(&w, e, f, g, h);
    vf_eq_n("rows", v.rows(), clip(e, f, b - a));
    vf_eq_n("cols", v.cols(), clip(g, h, d - c));
    vf_assume(i < clip(e, f, b - a) && j < clip(g, h, d - c));
    vf_eq_p("element", &v(i, j), &A(a + e + i, c + g + j));
'''),
 'asoperand': ('C13_C03', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && i < r1 - r0 && j < c1 - c0);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    auto C = w + B;
    vf_eq_n("rows", C.rows(), r1 - r0);
    vf_eq_n("cols", C.cols(), c1 - c0);
    vf::eq("sum", C(i, j), A(r0 + i, c0 + j) + B(i, j));
'''),
 'compound': ('C13_C03_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    T want = A(p, q);
    if (p >= r0 && p < r1 && q >= c0 && q < c1)
        want = want + B(p - r0, q - c0);
    w += B;
    vf::eq("sum through the view", A(p, q), want);
'''),
 'scale': ('C13_C03_C06', '''    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    T want = A(p, q);
    T k = vf::in<T>::at("k", 0);
    if (p >= r0 && p < r1 && q >= c0 && q < c1)
        want = want * k;
    w *= k;
    vf::eq("scaled through the view", A(p, q), want);
'''),
 # ------------------------------------------------ minors
 'minorshape': ('C14', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const CofactorView<Matrix<T>> &cw = w;
    vf_eq_n("rows", w.rows(), n - 1);
    vf_eq_n("cols", w.cols(), m - 1);
    vf_eq_n("size", w.size(), (n - 1) * (m - 1));
    vf_eq_b("empty", w.empty(), n == 1 || m == 1);
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_n("rows base", b.rows(), n - 1);
    vf_eq_n("cols base", b.cols(), m - 1);
    vf_eq_n("size base", b.size(), (n - 1) * (m - 1));
    vf_assume(i + 1 < n && j + 1 < m);
    size_t r = i < p ? i : i + 1, c = j < q ? j : j + 1;
    vf_eq_p("at", &w.at(i, j), &A.at(r, c));
    vf_eq_p("call", &w(i, j), &A.at(r, c));
    vf_eq_p("at const", &cw.at(i, j), &A.at(r, c));
    vf_eq_p("call const", &cw(i, j), &A.at(r, c));
    vf_eq_p("at base", &b.at(i, j), &A.at(r, c));
    vf_eq_p("call base", &b(i, j), &A.at(r, c));
    vf_eq_p("at base const", &cb.at(i, j), &A.at(r, c));
    vf_eq_p("call base const", &cb(i, j), &A.at(r, c));
    vf_eq_p("data", w.data(), A.data());
'''),
 'minorlinear': ('C14_C12', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m && i + 1 < n && j + 1 < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const CofactorView<Matrix<T>> &cw = w;
    size_t r = i < p ? i : i + 1, c = j < q ? j : j + 1;
#ifdef ROW_MAJOR
    size_t pos = i * (m - 1) + j;
#else
    size_t pos = i + (n - 1) * j;
#endif
    vf_eq_p("linear", &w[pos], &A.at(r, c));
    vf_eq_p("linear const", &cw[pos], &A.at(r, c));
    const MatrixBase<T> &cb = w;
    vf_eq_p("linear base const", &cb[pos], &A.at(r, c));
'''),
 'minorabs': ('C14', '''    auto &A = ABS(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(A.rows() == n && A.cols() == m && p < n && q < m && i + 1 < n && j + 1 < m);
    CofactorView<const MatrixBase<T>> w(&A, p, q);
    vf_eq_n("rows", w.rows(), n - 1);
    vf_eq_n("cols", w.cols(), m - 1);
    vf::eq("element", w(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
    vf::eq("element at", w.at(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
'''),
 'minortwice': ('C14', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s + 1 < n && t + 1 < m && i + 2 < n && j + 2 < m);
    typedef CofactorView<Matrix<T>> V1;
    V1 v(&A, p, q);
    CofactorView<V1> w(&v, s, t);
    vf_eq_n("rows", w.rows(), n - 2);
    vf_eq_n("cols", w.cols(), m - 2);
    size_t r = i < s ? i : i + 1, c = j < t ? j : j + 1;
    vf_eq_p("element", &w(i, j), &A(r < p ? r : r + 1, c < q ? c : c + 1));
'''),
 'minorwrite': ('C14_C06', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s < n && t < m && i + 1 < n && j + 1 < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const T old = A(s, t);
    const T x = vf::in<T>::at("x", 0);
    w(i, j) = x;
    vf::eq("write", A(s, t), (s == (i < p ? i : i + 1) && t == (j < q ? j : j + 1)) ? x : old);
'''),
 'minorassign': ('C14_C06', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s < n && t < m && n > 1 && m > 1);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == n - 1 && B.cols() == m - 1);
    CofactorView<Matrix<T>> w(&A, p, q);
    T want = A(s, t);
    if (s != p && t != q)
        want = B(s < p ? s : s - 1, t < q ? t : t - 1);
    auto &back = (w = B);
    vf_eq_p("returns itself", &back, &w);
    vf::eq("assigned", A(s, t), want);
'''),
 'minorassignself': ('C14_C06', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), s = vf_n("s"), t = vf_n("t"), u = vf_n("u"), v = vf_n("v");
    vf_assume(p < n && q < m && s < n && t < m && u < n && v < m && n > 1 && m > 1);
    CofactorView<Matrix<T>> w(&A, p, q), x(&A, u, v);
    T want = A(s, t);
    if (s != p && t != q)
        want = x(s < p ? s : s - 1, t < q ? t : t - 1);
    w = x;
    vf::eq("assigned from another minor of the same matrix", A(s, t), want);
'''),
 'minorcopy': ('C14_C09_C08', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    Matrix<T> B(w);
    vf_eq_n("rows", B.rows(), n - 1);
    vf_eq_n("cols", B.cols(), m - 1);
    vf::stored(B);
    vf_assume(i + 1 < n && j + 1 < m);
    vf::eq("element", B(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
'''),
 'minorview': ('C14_C13', '''    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < r1 - r0 && q < c1 - c0 && i + 1 < r1 - r0 && j + 1 < c1 - c0);
    typedef View<Matrix<T>> V1;
    V1 v(&A, r0, r1, c0, c1);
    CofactorView<V1> w(&v, p, q);
    vf_eq_n("rows", w.rows(), r1 - r0 - 1);
    vf_eq_n("cols", w.cols(), c1 - c0 - 1);
    vf_eq_p("element", &w(i, j), &A(r0 + (i < p ? i : i + 1), c0 + (j < q ? j : j + 1)));
'''),
}
o = [PRE.split('// shape and elements')[0]]
TY = [('d', 'double'), ('z', 'cplx'), ('i', 'int'), ('f', 'float')]
for n, (ps, b) in BODY.items():
    o.append('template <typename T>\ninline void %s()\n{\n    auto n = vf_n("n"), m = vf_n("m");\n%s}\n' % (n, b))
o.append('} // namespace\n')
for n, (ps, b) in BODY.items():
    for s, t in TY:
        o.append('PROBE(%s_%s_%s)\n{\n    %s<%s>();\n}\n' % (ps, n, s, n, t))
open(V + '/driver/p_view.cpp', 'w').write(''.join(o))
