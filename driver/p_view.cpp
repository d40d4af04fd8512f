// Views and minors. Written by tools/gen_view.py.
#include "vfm.hpp"
namespace utility = malg::utility;
namespace
{
size_t clip(size_t start, size_t stop, size_t n)
{
    size_t s = stop < n ? stop : n;
    return s > start ? s - start : 0;
}
template <typename T>
inline void shape()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    size_t h = clip(r0, r1, n), k = clip(c0, c1, m);
    vf_eq_n("rows", w.rows(), h);
    vf_eq_n("cols", w.cols(), k);
    vf_eq_n("size", w.size(), h * k);
    vf_eq_b("empty", w.empty(), h == 0 || k == 0);
    const MatrixBase<T> &b = w;
    vf_eq_n("rows base", b.rows(), h);
    vf_eq_n("cols base", b.cols(), k);
    vf_eq_n("size base", b.size(), h * k);
    vf_eq_b("empty base", b.empty(), h == 0 || k == 0);
    vf_eq_p("data", w.data(), A.data());
    vf_eq_p("data const", cw.data(), A.data());
}
template <typename T>
inline void element()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("at", &w.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call", &w(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("at const", &cw.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call const", &cw(i, j), &A.at(r0 + i, c0 + j));
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_p("at base", &b.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call base", &b(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("at base const", &cb.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call base const", &cb(i, j), &A.at(r0 + i, c0 + j));
}
template <typename T>
inline void linear()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    const View<Matrix<T>> &cw = w;
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < r1 - r0 && j < c1 - c0);
#ifdef ROW_MAJOR
    size_t pos = i * (c1 - c0) + j;
#else
    size_t pos = i + (r1 - r0) * j;
#endif
    vf_eq_p("linear", &w[pos], &A(r0 + i, c0 + j));
    vf_eq_p("linear const", &cw[pos], &A(r0 + i, c0 + j));
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_p("linear base", &b[pos], &A(r0 + i, c0 + j));
    vf_eq_p("linear base const", &cb[pos], &A(r0 + i, c0 + j));
}
template <typename T>
inline void constview()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    const Matrix<T> &B = A;
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    auto w = B(Range{ r0, r1 }, Range{ c0, c1 });
    static_assert(std::is_same_v<decltype(w), View<const Matrix<T>>>);
    vf_eq_n("rows", w.rows(), clip(r0, r1, n));
    vf_eq_n("cols", w.cols(), clip(c0, c1, m));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("at", &w.at(i, j), &A.at(r0 + i, c0 + j));
    vf_eq_p("call", &w(i, j), &A.at(r0 + i, c0 + j));
    const MatrixBase<const T> &cb = w;
    vf_eq_p("at base", &cb.at(i, j), &A.at(r0 + i, c0 + j));
}
template <typename T>
inline void calls()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && c0 < c1);
    auto w = A(Range{ r0, r1 }, Range{ c0, c1 });
    static_assert(std::is_same_v<decltype(w), View<Matrix<T>>>);
    vf_eq_n("rows", w.rows(), clip(r0, r1, n));
    vf_eq_n("cols", w.cols(), clip(c0, c1, m));
    auto u = utility::view(A, r0, r1, c0, c1);
    vf_eq_n("rows of view", u.rows(), clip(r0, r1, n));
    vf_eq_n("cols of view", u.cols(), clip(c0, c1, m));
    auto all = A(Range::all(), Range::all());
    vf_eq_n("all rows", all.rows(), n);
    vf_eq_n("all cols", all.cols(), m);
    auto va = utility::view(A);
    vf_eq_n("all rows of view", va.rows(), n);
    vf_eq_n("all cols of view", va.cols(), m);
    View<Matrix<T>> vr(&A, Range{ r0, r1 });
    vf_eq_n("rows of range", vr.rows(), clip(r0, r1, n));
    vf_eq_n("cols of range", vr.cols(), m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    vf_eq_p("element", &w(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("element of view", &u(i, j), &A(r0 + i, c0 + j));
    vf_eq_p("element of all", &all(r0 + i, c0 + j), &A(r0 + i, c0 + j));
    vf_eq_p("element of view all", &va(r0 + i, c0 + j), &A(r0 + i, c0 + j));
    vf_eq_p("element of range", &vr(i, c0 + j), &A(r0 + i, c0 + j));
}
template <typename T>
inline void rowcol()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r = vf_n("r"), c = vf_n("c"), a = vf_n("a"), b = vf_n("b");
    vf_assume(r < n && c < m && a < b);
    auto x = utility::row(A, r, a, b);
    vf_eq_n("rows of row", x.rows(), 1);
    vf_eq_n("cols of row", x.cols(), clip(a, b, m));
    auto y = utility::col(A, c, a, b);
    vf_eq_n("rows of col", y.rows(), clip(a, b, n));
    vf_eq_n("cols of col", y.cols(), 1);
    auto x2 = utility::row(A, r);
    auto y2 = utility::col(A, c);
    vf_eq_n("rows of row, all", x2.rows(), 1);
    vf_eq_n("cols of row, all", x2.cols(), m);
    vf_eq_n("rows of col, all", y2.rows(), n);
    vf_eq_n("cols of col, all", y2.cols(), 1);
    vf_eq_p("element of row, all", &x2(0, c), &A(r, c));
    vf_eq_p("element of col, all", &y2(r, 0), &A(r, c));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < clip(a, b, n) && j < clip(a, b, m));
    vf_eq_p("element of row", &x(0, j), &A(r, a + j));
    vf_eq_p("element of col", &y(i, 0), &A(a + i, c));
}
template <typename T>
inline void write()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && c0 < c1 && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(i < clip(r0, r1, n) && j < clip(c0, c1, m));
    const T old = A(p, q);
    const T x = vf::in<T>::at("x", 0);
    w(i, j) = x;
    vf::eq("write", A(p, q), (p == r0 + i && q == c0 + j) ? x : old);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
}
template <typename T>
inline void writelinear()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(i < r1 - r0 && j < c1 - c0);
    const T old = A(p, q);
    const T x = vf::in<T>::at("x", 0);
#ifdef ROW_MAJOR
    w[i * (c1 - c0) + j] = x;
#else
    w[i + (r1 - r0) * j] = x;
#endif
    vf::eq("write", A(p, q), (p == r0 + i && q == c0 + j) ? x : old);
}
template <typename T>
inline void assignabs()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    auto &back = (w = B);
    vf_eq_p("returns itself", &back, &w);
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0, q - c0);
    vf::eq("assigned", A(p, q), want);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
}
template <typename T>
inline void assignmat()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    MAT(T, B, "B", r1 - r0, c1 - c0);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    auto &back = (w = B);
    vf_eq_p("returns itself", &back, &w);
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0, q - c0);
    vf::eq("assigned", A(p, q), want);
}
template <typename T>
inline void assignsame()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto a = vf_n("a"), b = vf_n("b"), c = vf_n("c"), d = vf_n("d"), h = vf_n("h"), k = vf_n("k"), p = vf_n("p"), q = vf_n("q");
    vf_assume(h > 0 && k > 0 && a + h <= n && b + k <= m && c + h <= n && d + k <= m && p < n && q < m);
    View<Matrix<T>> w(&A, a, a + h, b, b + k), v(&A, c, c + h, d, d + k);
    const T old = A(p, q);
    bool in = p >= a && p < a + h && q >= b && q < b + k;
    T want = old;
    if (in)
        want = A(p - a + c, q - b + d);
    auto &back = (w = v);
    vf_eq_p("returns itself", &back, &w);
    vf::eq("assigned from an overlapping window", A(p, q), want);
}
template <typename T>
inline void assignother()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q"), k = vf_n("k"), l = vf_n("l"), s = vf_n("s"), t = vf_n("t");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m && s + (r1 - r0) <= k && t + (c1 - c0) <= l);
    MAT(T, B, "B", k, l);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    View<const Matrix<T>> v(&B, s, s + (r1 - r0), t, t + (c1 - c0));
    auto &back = (w = v);
    vf_eq_p("returns itself", &back, &w);
    bool in = p >= r0 && p < r1 && q >= c0 && q < c1;
    T want = old;
    if (in)
        want = B(p - r0 + s, q - c0 + t);
    vf::eq("assigned", A(p, q), want);
}
template <typename T>
inline void assignlist()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), c0 = vf_n("c0"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 + 2 <= n && c0 + 3 <= m && p < n && q < m);
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("a", 1), c = vf::in<T>::at("a", 2), d = vf::in<T>::at("a", 3), e = vf::in<T>::at("a", 4), f = vf::in<T>::at("a", 5);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r0 + 2, c0, c0 + 3);
    auto &back = (w = { { a, b, c }, { d, e, f } });
    vf_eq_p("returns itself", &back, &w);
    vf::eq("0,0", A(r0, c0), a);
    vf::eq("0,1", A(r0, c0 + 1), b);
    vf::eq("0,2", A(r0, c0 + 2), c);
    vf::eq("1,0", A(r0 + 1, c0), d);
    vf::eq("1,1", A(r0 + 1, c0 + 1), e);
    vf::eq("1,2", A(r0 + 1, c0 + 2), f);
    vf_assume(p < r0 || p >= r0 + 2 || q < c0 || q >= c0 + 3);
    vf::eq("outside", A(p, q), old);
}
template <typename T>
inline void assignline()
{
    // lists of a single row and of a single column
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    MAT(T, B, "B", n, m);
    auto r0 = vf_n("r0"), c0 = vf_n("c0"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 + 2 <= n && c0 + 2 <= m && p < n && q < m);
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("a", 1);
    const T old = A(p, q), was = B(p, q);
    View<Matrix<T>> w(&A, r0, r0 + 1, c0, c0 + 2), v(&B, r0, r0 + 2, c0, c0 + 1);
    w = { { a, b } };
    v = { { a }, { b } };
    vf::eq("row", A(p, q), p == r0 && q == c0 ? a : p == r0 && q == c0 + 1 ? b : old);
    vf::eq("column", B(p, q), p == r0 && q == c0 ? a : p == r0 + 1 && q == c0 ? b : was);
}
template <typename T>
inline void badlist()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("a", 1), c = vf::in<T>::at("a", 2), d = vf::in<T>::at("a", 3);
    const T old = A(p, q);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    vf_assume(r1 - r0 != 2 || c1 - c0 != 2);
    w = { { a, b }, { c, d } };
    vf::eq("an incompatible list changes nothing", A(p, q), old);
}
template <typename T>
inline void copyout()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    Matrix<T> B(w);
    vf_eq_n("rows", B.rows(), r1 - r0);
    vf_eq_n("cols", B.cols(), c1 - c0);
    vf::stored(B);
    vf_assume(i < r1 - r0 && j < c1 - c0);
    vf::eq("element", B(i, j), A(r0 + i, c0 + j));
}
template <typename T>
inline void viewofview()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto a = vf_n("a"), b = vf_n("b"), c = vf_n("c"), d = vf_n("d"), e = vf_n("e"), f = vf_n("f"), g = vf_n("g"), h = vf_n("h"), i = vf_n("i"), j = vf_n("j");
    vf_assume(a < b && c < d && e < f && g < h && b <= n && d <= m);
    typedef View<Matrix<T>> V1;
    V1 w(&A, a, b, c, d);
    View<V1> v(&w, e, f, g, h);
    vf_eq_n("rows", v.rows(), clip(e, f, b - a));
    vf_eq_n("cols", v.cols(), clip(g, h, d - c));
    vf_assume(i < clip(e, f, b - a) && j < clip(g, h, d - c));
    vf_eq_p("element", &v(i, j), &A(a + e + i, c + g + j));
}
template <typename T>
inline void asoperand()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && i < r1 - r0 && j < c1 - c0);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    auto C = w + B;
    vf_eq_n("rows", C.rows(), r1 - r0);
    vf_eq_n("cols", C.cols(), c1 - c0);
    vf::eq("sum", C(i, j), A(r0 + i, c0 + j) + B(i, j));
}
template <typename T>
inline void compound()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == r1 - r0 && B.cols() == c1 - c0);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    T want = A(p, q);
    if (p >= r0 && p < r1 && q >= c0 && q < c1)
        want = want + B(p - r0, q - c0);
    w += B;
    vf::eq("sum through the view", A(p, q), want);
}
template <typename T>
inline void scale()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), p = vf_n("p"), q = vf_n("q");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < n && q < m);
    View<Matrix<T>> w(&A, r0, r1, c0, c1);
    T want = A(p, q);
    T k = vf::in<T>::at("k", 0);
    if (p >= r0 && p < r1 && q >= c0 && q < c1)
        want = want * k;
    w *= k;
    vf::eq("scaled through the view", A(p, q), want);
}
template <typename T>
inline void minorshape()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const CofactorView<Matrix<T>> &cw = w;
    vf_eq_n("rows", w.rows(), n - 1);
    vf_eq_n("cols", w.cols(), m - 1);
    vf_eq_n("size", w.size(), (n - 1) * (m - 1));
    vf_eq_b("empty", w.empty(), n == 1 || m == 1);
    MatrixBase<T> &b = w;
    const MatrixBase<T> &cb = w;
    vf_eq_n("rows base", b.rows(), n - 1);
    vf_eq_n("cols base", b.cols(), m - 1);
    vf_eq_n("size base", b.size(), (n - 1) * (m - 1));
    vf_assume(i + 1 < n && j + 1 < m);
    size_t r = i < p ? i : i + 1, c = j < q ? j : j + 1;
    vf_eq_p("at", &w.at(i, j), &A.at(r, c));
    vf_eq_p("call", &w(i, j), &A.at(r, c));
    vf_eq_p("at const", &cw.at(i, j), &A.at(r, c));
    vf_eq_p("call const", &cw(i, j), &A.at(r, c));
    vf_eq_p("at base", &b.at(i, j), &A.at(r, c));
    vf_eq_p("call base", &b(i, j), &A.at(r, c));
    vf_eq_p("at base const", &cb.at(i, j), &A.at(r, c));
    vf_eq_p("call base const", &cb(i, j), &A.at(r, c));
    vf_eq_p("data", w.data(), A.data());
}
template <typename T>
inline void minorlinear()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m && i + 1 < n && j + 1 < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const CofactorView<Matrix<T>> &cw = w;
    size_t r = i < p ? i : i + 1, c = j < q ? j : j + 1;
#ifdef ROW_MAJOR
    size_t pos = i * (m - 1) + j;
#else
    size_t pos = i + (n - 1) * j;
#endif
    vf_eq_p("linear", &w[pos], &A.at(r, c));
    vf_eq_p("linear const", &cw[pos], &A.at(r, c));
    const MatrixBase<T> &cb = w;
    vf_eq_p("linear base const", &cb[pos], &A.at(r, c));
}
template <typename T>
inline void minorabs()
{
    auto n = vf_n("n"), m = vf_n("m");
    auto &A = ABS(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(A.rows() == n && A.cols() == m && p < n && q < m && i + 1 < n && j + 1 < m);
    CofactorView<const MatrixBase<T>> w(&A, p, q);
    vf_eq_n("rows", w.rows(), n - 1);
    vf_eq_n("cols", w.cols(), m - 1);
    vf::eq("element", w(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
    vf::eq("element at", w.at(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
}
template <typename T>
inline void minortwice()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s + 1 < n && t + 1 < m && i + 2 < n && j + 2 < m);
    typedef CofactorView<Matrix<T>> V1;
    V1 v(&A, p, q);
    CofactorView<V1> w(&v, s, t);
    vf_eq_n("rows", w.rows(), n - 2);
    vf_eq_n("cols", w.cols(), m - 2);
    size_t r = i < s ? i : i + 1, c = j < t ? j : j + 1;
    vf_eq_p("element", &w(i, j), &A(r < p ? r : r + 1, c < q ? c : c + 1));
}
template <typename T>
inline void minorwrite()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s < n && t < m && i + 1 < n && j + 1 < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    const T old = A(s, t);
    const T x = vf::in<T>::at("x", 0);
    w(i, j) = x;
    vf::eq("write", A(s, t), (s == (i < p ? i : i + 1) && t == (j < q ? j : j + 1)) ? x : old);
}
template <typename T>
inline void minorassign()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), s = vf_n("s"), t = vf_n("t");
    vf_assume(p < n && q < m && s < n && t < m && n > 1 && m > 1);
    auto &B = ABS(T, "B");
    vf_assume(B.rows() == n - 1 && B.cols() == m - 1);
    CofactorView<Matrix<T>> w(&A, p, q);
    T want = A(s, t);
    if (s != p && t != q)
        want = B(s < p ? s : s - 1, t < q ? t : t - 1);
    auto &back = (w = B);
    vf_eq_p("returns itself", &back, &w);
    vf::eq("assigned", A(s, t), want);
}
template <typename T>
inline void minorassignself()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), s = vf_n("s"), t = vf_n("t"), u = vf_n("u"), v = vf_n("v");
    vf_assume(p < n && q < m && s < n && t < m && u < n && v < m && n > 1 && m > 1);
    CofactorView<Matrix<T>> w(&A, p, q), x(&A, u, v);
    T want = A(s, t);
    if (s != p && t != q)
        want = x(s < p ? s : s - 1, t < q ? t : t - 1);
    w = x;
    vf::eq("assigned from another minor of the same matrix", A(s, t), want);
}
template <typename T>
inline void minorcopy()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j");
    vf_assume(p < n && q < m);
    CofactorView<Matrix<T>> w(&A, p, q);
    Matrix<T> B(w);
    vf_eq_n("rows", B.rows(), n - 1);
    vf_eq_n("cols", B.cols(), m - 1);
    vf::stored(B);
    vf_assume(i + 1 < n && j + 1 < m);
    vf::eq("element", B(i, j), A(i < p ? i : i + 1, j < q ? j : j + 1));
}
template <typename T>
inline void minorview()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    auto p = vf_n("p"), q = vf_n("q"), i = vf_n("i"), j = vf_n("j"), r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m && p < r1 - r0 && q < c1 - c0 && i + 1 < r1 - r0 && j + 1 < c1 - c0);
    typedef View<Matrix<T>> V1;
    V1 v(&A, r0, r1, c0, c1);
    CofactorView<V1> w(&v, p, q);
    vf_eq_n("rows", w.rows(), r1 - r0 - 1);
    vf_eq_n("cols", w.cols(), c1 - c0 - 1);
    vf_eq_p("element", &w(i, j), &A(r0 + (i < p ? i : i + 1), c0 + (j < q ? j : j + 1)));
}
} // namespace
PROBE(C13_shape_d)
{
    shape<double>();
}
PROBE(C13_shape_z)
{
    shape<cplx>();
}
PROBE(C13_shape_i)
{
    shape<int>();
}
PROBE(C13_shape_f)
{
    shape<float>();
}
PROBE(C13_element_d)
{
    element<double>();
}
PROBE(C13_element_z)
{
    element<cplx>();
}
PROBE(C13_element_i)
{
    element<int>();
}
PROBE(C13_element_f)
{
    element<float>();
}
PROBE(C13_C12_linear_d)
{
    linear<double>();
}
PROBE(C13_C12_linear_z)
{
    linear<cplx>();
}
PROBE(C13_C12_linear_i)
{
    linear<int>();
}
PROBE(C13_C12_linear_f)
{
    linear<float>();
}
PROBE(C13_C29_constview_d)
{
    constview<double>();
}
PROBE(C13_C29_constview_z)
{
    constview<cplx>();
}
PROBE(C13_C29_constview_i)
{
    constview<int>();
}
PROBE(C13_C29_constview_f)
{
    constview<float>();
}
PROBE(C13_C29_calls_d)
{
    calls<double>();
}
PROBE(C13_C29_calls_z)
{
    calls<cplx>();
}
PROBE(C13_C29_calls_i)
{
    calls<int>();
}
PROBE(C13_C29_calls_f)
{
    calls<float>();
}
PROBE(C13_rowcol_d)
{
    rowcol<double>();
}
PROBE(C13_rowcol_z)
{
    rowcol<cplx>();
}
PROBE(C13_rowcol_i)
{
    rowcol<int>();
}
PROBE(C13_rowcol_f)
{
    rowcol<float>();
}
PROBE(C13_C06_write_d)
{
    write<double>();
}
PROBE(C13_C06_write_z)
{
    write<cplx>();
}
PROBE(C13_C06_write_i)
{
    write<int>();
}
PROBE(C13_C06_write_f)
{
    write<float>();
}
PROBE(C13_C06_writelinear_d)
{
    writelinear<double>();
}
PROBE(C13_C06_writelinear_z)
{
    writelinear<cplx>();
}
PROBE(C13_C06_writelinear_i)
{
    writelinear<int>();
}
PROBE(C13_C06_writelinear_f)
{
    writelinear<float>();
}
PROBE(C13_C06_assignabs_d)
{
    assignabs<double>();
}
PROBE(C13_C06_assignabs_z)
{
    assignabs<cplx>();
}
PROBE(C13_C06_assignabs_i)
{
    assignabs<int>();
}
PROBE(C13_C06_assignabs_f)
{
    assignabs<float>();
}
PROBE(C13_C06_assignmat_d)
{
    assignmat<double>();
}
PROBE(C13_C06_assignmat_z)
{
    assignmat<cplx>();
}
PROBE(C13_C06_assignmat_i)
{
    assignmat<int>();
}
PROBE(C13_C06_assignmat_f)
{
    assignmat<float>();
}
PROBE(C13_C06_assignsame_d)
{
    assignsame<double>();
}
PROBE(C13_C06_assignsame_z)
{
    assignsame<cplx>();
}
PROBE(C13_C06_assignsame_i)
{
    assignsame<int>();
}
PROBE(C13_C06_assignsame_f)
{
    assignsame<float>();
}
PROBE(C13_C06_assignother_d)
{
    assignother<double>();
}
PROBE(C13_C06_assignother_z)
{
    assignother<cplx>();
}
PROBE(C13_C06_assignother_i)
{
    assignother<int>();
}
PROBE(C13_C06_assignother_f)
{
    assignother<float>();
}
PROBE(C13_C06_assignlist_d)
{
    assignlist<double>();
}
PROBE(C13_C06_assignlist_z)
{
    assignlist<cplx>();
}
PROBE(C13_C06_assignlist_i)
{
    assignlist<int>();
}
PROBE(C13_C06_assignlist_f)
{
    assignlist<float>();
}
PROBE(C13_C06_C01_badlist_d)
{
    badlist<double>();
}
PROBE(C13_C06_C01_badlist_z)
{
    badlist<cplx>();
}
PROBE(C13_C06_C01_badlist_i)
{
    badlist<int>();
}
PROBE(C13_C06_C01_badlist_f)
{
    badlist<float>();
}
PROBE(C13_C09_C08_copyout_d)
{
    copyout<double>();
}
PROBE(C13_C09_C08_copyout_z)
{
    copyout<cplx>();
}
PROBE(C13_C09_C08_copyout_i)
{
    copyout<int>();
}
PROBE(C13_C09_C08_copyout_f)
{
    copyout<float>();
}
PROBE(C13_viewofview_d)
{
    viewofview<double>();
}
PROBE(C13_viewofview_z)
{
    viewofview<cplx>();
}
PROBE(C13_viewofview_i)
{
    viewofview<int>();
}
PROBE(C13_viewofview_f)
{
    viewofview<float>();
}
PROBE(C13_C03_asoperand_d)
{
    asoperand<double>();
}
PROBE(C13_C03_asoperand_z)
{
    asoperand<cplx>();
}
PROBE(C13_C03_asoperand_i)
{
    asoperand<int>();
}
PROBE(C13_C03_asoperand_f)
{
    asoperand<float>();
}
PROBE(C13_C03_C06_compound_d)
{
    compound<double>();
}
PROBE(C13_C03_C06_compound_z)
{
    compound<cplx>();
}
PROBE(C13_C03_C06_compound_i)
{
    compound<int>();
}
PROBE(C13_C03_C06_compound_f)
{
    compound<float>();
}
PROBE(C13_C03_C06_scale_d)
{
    scale<double>();
}
PROBE(C13_C03_C06_scale_z)
{
    scale<cplx>();
}
PROBE(C13_C03_C06_scale_i)
{
    scale<int>();
}
PROBE(C13_C03_C06_scale_f)
{
    scale<float>();
}
PROBE(C14_minorshape_d)
{
    minorshape<double>();
}
PROBE(C14_minorshape_z)
{
    minorshape<cplx>();
}
PROBE(C14_minorshape_i)
{
    minorshape<int>();
}
PROBE(C14_minorshape_f)
{
    minorshape<float>();
}
PROBE(C14_C12_minorlinear_d)
{
    minorlinear<double>();
}
PROBE(C14_C12_minorlinear_z)
{
    minorlinear<cplx>();
}
PROBE(C14_C12_minorlinear_i)
{
    minorlinear<int>();
}
PROBE(C14_C12_minorlinear_f)
{
    minorlinear<float>();
}
PROBE(C14_minorabs_d)
{
    minorabs<double>();
}
PROBE(C14_minorabs_z)
{
    minorabs<cplx>();
}
PROBE(C14_minorabs_i)
{
    minorabs<int>();
}
PROBE(C14_minorabs_f)
{
    minorabs<float>();
}
PROBE(C14_minortwice_d)
{
    minortwice<double>();
}
PROBE(C14_minortwice_z)
{
    minortwice<cplx>();
}
PROBE(C14_minortwice_i)
{
    minortwice<int>();
}
PROBE(C14_minortwice_f)
{
    minortwice<float>();
}
PROBE(C14_C06_minorwrite_d)
{
    minorwrite<double>();
}
PROBE(C14_C06_minorwrite_z)
{
    minorwrite<cplx>();
}
PROBE(C14_C06_minorwrite_i)
{
    minorwrite<int>();
}
PROBE(C14_C06_minorwrite_f)
{
    minorwrite<float>();
}
PROBE(C14_C06_minorassign_d)
{
    minorassign<double>();
}
PROBE(C14_C06_minorassign_z)
{
    minorassign<cplx>();
}
PROBE(C14_C06_minorassign_i)
{
    minorassign<int>();
}
PROBE(C14_C06_minorassign_f)
{
    minorassign<float>();
}
PROBE(C14_C06_minorassignself_d)
{
    minorassignself<double>();
}
PROBE(C14_C06_minorassignself_z)
{
    minorassignself<cplx>();
}
PROBE(C14_C06_minorassignself_i)
{
    minorassignself<int>();
}
PROBE(C14_C06_minorassignself_f)
{
    minorassignself<float>();
}
PROBE(C14_C09_C08_minorcopy_d)
{
    minorcopy<double>();
}
PROBE(C14_C09_C08_minorcopy_z)
{
    minorcopy<cplx>();
}
PROBE(C14_C09_C08_minorcopy_i)
{
    minorcopy<int>();
}
PROBE(C14_C09_C08_minorcopy_f)
{
    minorcopy<float>();
}
PROBE(C14_C13_minorview_d)
{
    minorview<double>();
}
PROBE(C14_C13_minorview_z)
{
    minorview<cplx>();
}
PROBE(C14_C13_minorview_i)
{
    minorview<int>();
}
PROBE(C14_C13_minorview_f)
{
    minorview<float>();
}

PROBE(C13_C06_assignline_d)
{
    assignline<double>();
}

PROBE(C13_C06_assignline_z)
{
    assignline<cplx>();
}

PROBE(C13_C06_assignline_i)
{
    assignline<int>();
}
