// Written by tools/gen_arith.py from arith.inc
#include "vfm.hpp"

#define BIN(op) [](auto &x, auto &y) { return x op y; }
#define BINV(op) [](auto x, auto y) { return x op y; }

template <typename T> inline bool nonzero(const T &v) { return v != 0; }
inline bool nonzero(const cplx &v) { return v.real() * v.real() + v.imag() * v.imag() != 0; }

template <typename T> inline T scalar(const char *n) { return vf::in<T>::at(n, 0); }

// ---------------------------------------------------------------- matrices
template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_mat(Op op, Ref ref)
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = op(A, B);
    static_assert(!std::is_reference_v<decltype(op(A, B))>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < A.cols());
    vf::eq("element", R(r, c), ref(A(r, c), B(r, c)));
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("linear element", R[i], ref(A[i], B[i]));
    R[i] = R[i] + R[i];
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_mat_eq(Op op, Ref ref)
{
    auto &A = ABSM(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto &R = op(A, B);
    vf_eq_p("C06:returns the left operand", &R, &A);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", A[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i))));
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

template <typename Op, typename Ref>
inline void mat_self(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "A", n, m);
    op(A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    auto i = vf_n("i");
    vf_assume(i < n * m);
    vf::eq("element", A[i], ref(vf_in_d("A", i), vf_in_d("A", i)));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_sca(Op op, Ref ref, int div)
{
    auto &A = ABS(A_t, "A");
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto R = op(A, b);
    static_assert(!std::is_reference_v<decltype(op(A, b))>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", R[i], ref(A[i], b));
    R[i] = R[i] + R[i];
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_sca_eq(Op op, Ref ref, int div)
{
    auto &A = ABSM(A_t, "A");
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto &R = op(A, b);
    vf_eq_p("C06:returns the left operand", &R, &A);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", A[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), b)));
}

template <typename Op, typename Ref>
inline void mat_own(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), m = vf_n("m"), i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n * m && j < n * m);
    MAT(double, A, "A", n, m);
    vf_assume(!div || A[j] != 0);
    op(A, A[j]);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::eq("element", A[i], ref(vf_in_d("A", i), vf_in_d("A", j)));
}

template <typename A_t, typename B_t>
inline void sca_mat()
{
    auto &B = ABS(B_t, "B");
    const A_t a = scalar<A_t>("a");
    auto R = a * B;
    vf_eq_n("rows", R.rows(), B.rows());
    vf_eq_n("cols", R.cols(), B.cols());
    auto i = vf_n("i");
    vf_assume(i < B.size());
    vf::eq("element", R[i], a * B[i]);
    R[i] = R[i] + R[i];
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

// ---------------------------------------------------------------- vectors
template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_vec(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:left operand object kept", &a);
    vf_guard_object("C01:right operand object kept", &b);
    vf_throws_iff("C01:size", n != m);
    const Vector<A_t> &ca = a;
    const Vector<B_t> &cb = b;
    auto R = op(ca, cb);
    static_assert(!std::is_reference_v<decltype(op(ca, cb))>);
    vf_eq_n("size", R.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", R[i], ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i)));
    R[i] = R[i] + R[i];
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf_eq_n("C06:right size unchanged", b.size(), m);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_vec_eq(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:left operand object kept", &a);
    vf_throws_iff("C01:size", n != m);
    const Vector<B_t> &cb = b;
    auto &R = op(a, cb);
    vf_eq_p("C06:returns the left operand", &R, &a);
    vf_eq_n("size", a.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i))));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

template <typename Op, typename Ref>
inline void vec_self(Op op, Ref ref)
{
    auto n = vf_n("n"), i = vf_n("i");
    vf_assume(i < n);
    VEC(double, a, "A", n);
    op(a);
    vf_eq_n("size", a.size(), n);
    vf::eq("element", a[i], ref(vf_in_d("A", i), vf_in_d("A", i)));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_sca(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i");
    VEC(A_t, a, "A", n);
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    const Vector<A_t> &ca = a;
    auto R = op(ca, b);
    static_assert(!std::is_reference_v<decltype(op(ca, b))>);
    vf_eq_n("size", R.size(), n);
    vf_assume(i < n);
    vf::eq("element", R[i], ref(vf::in<A_t>::at("A", i), b));
    R[i] = R[i] + R[i];
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_sca_eq(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i");
    VEC(A_t, a, "A", n);
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto &R = op(a, b);
    vf_eq_p("C06:returns the left operand", &R, &a);
    vf_eq_n("size", a.size(), n);
    vf_assume(i < n);
    vf::eq("element", a[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), b)));
}

template <typename Op, typename Ref>
inline void vec_own(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    VEC(double, a, "A", n);
    vf_assume(!div || a[j] != 0);
    op(a, a[j]);
    vf_eq_n("size", a.size(), n);
    vf::eq("element", a[i], ref(vf_in_d("A", i), vf_in_d("A", j)));
}

template <typename A_t, typename B_t>
inline void sca_vec()
{
    auto n = vf_n("n"), i = vf_n("i");
    const A_t a = scalar<A_t>("a");
    VEC(B_t, b, "B", n);
    const Vector<B_t> &cb = b;
    auto R = a * cb;
    vf_eq_n("size", R.size(), n);
    vf_assume(i < n);
    vf::eq("element", R[i], a * vf::in<B_t>::at("B", i));
    R[i] = R[i] + R[i];
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

// ---------------------------------------------------------------- products
template <typename A_t, typename B_t>
inline void product()
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.cols() != B.rows());
    auto R = A * B;
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), B.cols());
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < B.cols());
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < A.cols(); ++k) {
        s += A(r, k) * B(k, c);
    }
    vf::eq("element", R(r, c), s);
    auto i = vf_n("i"), j = vf_n("j");
    R(r, c) = R(r, c) + R(r, c);
    vf_assume(i < A.size() && j < B.size());
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", B[j], vf::in<B_t>::at("B", j));
}

template <typename A_t, typename B_t>
inline void product_eq()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(A_t, A, "A", n, m);
    auto &B = ABS(B_t, "B");
    vf_keeps("C01:left operand kept", A.data(), "A");
    vf_guard_object("C01:left operand object kept", &A);
    vf_keeps_m("C01:right operand kept", "B");
    // The left operand keeps its shape.
    vf_throws_iff("C01:shape", m != B.rows() || B.cols() != m);
    auto &R = (A *= B);
    vf_eq_p("C06:returns the left operand", &R, &A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < m);
    // Sums are kept in the common type, and narrowed once.
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < m; ++k) {
        s += vf::in<A_t>::at("A", r * m + k) * B(k, c);
    }
    vf::eq("element", A(r, c), static_cast<A_t>(s));
    auto j = vf_n("j");
    vf_assume(j < B.size());
    vf::eq("C06:right operand unchanged", B[j], vf::in<B_t>::at("B", j));
}

inline void product_self()
{
    auto n = vf_n("n");
    MAT(double, A, "A", n, n);
    A *= A;
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < n);
    double s = 0;
    for (size_t k = 0; k < n; ++k) {
        s += vf_in_d("A", r * n + k) * vf_in_d("A", k * n + c);
    }
    vf::eq("element", A(r, c), s);
}

inline void product_view()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(m > 0 && n > m);
    MAT(double, A, "A", m, m);
    MAT(double, B, "B", n, n);
    const View<Matrix<double>> V(&B, 1, m + 1, 0, m);
    A *= V;
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < m && c < m);
    double s = 0;
    for (size_t k = 0; k < m; ++k) {
        s += vf_in_d("A", r * m + k) * vf_in_d("B", (1 + k) * n + c);
    }
    vf::eq("element", A(r, c), s);
}

template <typename A_t, typename B_t>
inline void mat_vec(int which)
{
    auto &A = ABS(A_t, "A");
    auto n = vf_n("n");
    VEC(B_t, b, "B", n);
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:right operand object kept", &b);
    vf_throws_iff("C01:shape", A.cols() != n);
    const Vector<B_t> &cb = b;
    auto R = which ? malg::dot(A, cb) : A * cb;
    vf_eq_n("size", R.size(), A.rows());
    auto r = vf_n("r");
    vf_assume(r < A.rows());
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < n; ++k) {
        s += A(r, k) * vf::in<B_t>::at("B", k);
    }
    vf::eq("element", R[r], s);
    auto i = vf_n("i"), j = vf_n("j");
    R[r] = R[r] + R[r];
    vf_assume(i < A.size() && j < n);
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[j], vf::in<B_t>::at("B", j));
}

template <typename A_t, typename B_t>
inline void vec_dot()
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_throws_iff("C01:size", n != m);
    const Vector<A_t> &ca = a;
    const Vector<B_t> &cb = b;
    auto R = malg::dot(ca, cb);
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < n; ++k) {
        s += vf::in<A_t>::at("A", k) * vf::in<B_t>::at("B", k);
    }
    vf::eq("value", R, s);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf_eq_n("C06:right size unchanged", b.size(), m);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}
