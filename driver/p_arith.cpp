// Written by tools/gen_arith.py from arith.inc
#include "vfm.hpp"

#define BIN(op) [](auto &x, auto &y) { return x op y; }
#define BINV(op) [](auto x, auto y) { return x op y; }

template <typename T> inline bool nonzero(const T &v) { return v != 0; }
inline bool nonzero(const cplx &v) { return v.real() * v.real() + v.imag() * v.imag() != 0; }

template <typename T> inline T scalar(const char *n) { return vf::in<T>::at(n, 0); }

// ---------------------------------------------------------------- matrices
template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_mat(Op op, Ref ref)
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = op(A, B);
    static_assert(!std::is_reference_v<decltype(op(A, B))>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < A.cols());
    vf::eq("element", R(r, c), ref(A(r, c), B(r, c)));
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("linear element", R[i], ref(A[i], B[i]));
    R[i] = R[i] + R[i];
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_mat_eq(Op op, Ref ref)
{
    auto &A = ABSM(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto &R = op(A, B);
    vf_eq_p("C06:returns the left operand", &R, &A);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", A[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i))));
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

template <typename Op, typename Ref>
inline void mat_self(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "A", n, m);
    op(A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    auto i = vf_n("i");
    vf_assume(i < n * m);
    vf::eq("element", A[i], ref(vf_in_d("A", i), vf_in_d("A", i)));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_sca(Op op, Ref ref, int div)
{
    auto &A = ABS(A_t, "A");
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto R = op(A, b);
    static_assert(!std::is_reference_v<decltype(op(A, b))>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", R[i], ref(A[i], b));
    R[i] = R[i] + R[i];
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_sca_eq(Op op, Ref ref, int div)
{
    auto &A = ABSM(A_t, "A");
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto &R = op(A, b);
    vf_eq_p("C06:returns the left operand", &R, &A);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf::eq("element", A[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), b)));
}

template <typename Op, typename Ref>
inline void mat_own(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), m = vf_n("m"), i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n * m && j < n * m);
    MAT(double, A, "A", n, m);
    vf_assume(!div || A[j] != 0);
    op(A, A[j]);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::eq("element", A[i], ref(vf_in_d("A", i), vf_in_d("A", j)));
}

template <typename A_t, typename B_t>
inline void sca_mat()
{
    auto &B = ABS(B_t, "B");
    const A_t a = scalar<A_t>("a");
    auto R = a * B;
    vf_eq_n("rows", R.rows(), B.rows());
    vf_eq_n("cols", R.cols(), B.cols());
    auto i = vf_n("i");
    vf_assume(i < B.size());
    vf::eq("element", R[i], a * B[i]);
    R[i] = R[i] + R[i];
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

// ---------------------------------------------------------------- vectors
template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_vec(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:left operand object kept", &a);
    vf_guard_object("C01:right operand object kept", &b);
    vf_throws_iff("C01:size", n != m);
    const Vector<A_t> &ca = a;
    const Vector<B_t> &cb = b;
    auto R = op(ca, cb);
    static_assert(!std::is_reference_v<decltype(op(ca, cb))>);
    vf_eq_n("size", R.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", R[i], ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i)));
    R[i] = R[i] + R[i];
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf_eq_n("C06:right size unchanged", b.size(), m);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_vec_eq(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:left operand object kept", &a);
    vf_throws_iff("C01:size", n != m);
    const Vector<B_t> &cb = b;
    auto &R = op(a, cb);
    vf_eq_p("C06:returns the left operand", &R, &a);
    vf_eq_n("size", a.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i))));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

template <typename Op, typename Ref>
inline void vec_self(Op op, Ref ref)
{
    auto n = vf_n("n"), i = vf_n("i");
    vf_assume(i < n);
    VEC(double, a, "A", n);
    op(a);
    vf_eq_n("size", a.size(), n);
    vf::eq("element", a[i], ref(vf_in_d("A", i), vf_in_d("A", i)));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_sca(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i");
    VEC(A_t, a, "A", n);
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    const Vector<A_t> &ca = a;
    auto R = op(ca, b);
    static_assert(!std::is_reference_v<decltype(op(ca, b))>);
    vf_eq_n("size", R.size(), n);
    vf_assume(i < n);
    vf::eq("element", R[i], ref(vf::in<A_t>::at("A", i), b));
    R[i] = R[i] + R[i];
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_sca_eq(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i");
    VEC(A_t, a, "A", n);
    const B_t b = scalar<B_t>("b");
    vf_assume(!div || nonzero(b));
    auto &R = op(a, b);
    vf_eq_p("C06:returns the left operand", &R, &a);
    vf_eq_n("size", a.size(), n);
    vf_assume(i < n);
    vf::eq("element", a[i], static_cast<A_t>(ref(vf::in<A_t>::at("A", i), b)));
}

template <typename Op, typename Ref>
inline void vec_own(Op op, Ref ref, int div)
{
    auto n = vf_n("n"), i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    VEC(double, a, "A", n);
    vf_assume(!div || a[j] != 0);
    op(a, a[j]);
    vf_eq_n("size", a.size(), n);
    vf::eq("element", a[i], ref(vf_in_d("A", i), vf_in_d("A", j)));
}

template <typename A_t, typename B_t>
inline void sca_vec()
{
    auto n = vf_n("n"), i = vf_n("i");
    const A_t a = scalar<A_t>("a");
    VEC(B_t, b, "B", n);
    const Vector<B_t> &cb = b;
    auto R = a * cb;
    vf_eq_n("size", R.size(), n);
    vf_assume(i < n);
    vf::eq("element", R[i], a * vf::in<B_t>::at("B", i));
    R[i] = R[i] + R[i];
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

// ---------------------------------------------------------------- products
template <typename A_t, typename B_t>
inline void product()
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.cols() != B.rows());
    auto R = A * B;
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), B.cols());
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < B.cols());
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < A.cols(); ++k) {
        s += A(r, k) * B(k, c);
    }
    vf::eq("element", R(r, c), s);
    auto i = vf_n("i"), j = vf_n("j");
    R(r, c) = R(r, c) + R(r, c);
    vf_assume(i < A.size() && j < B.size());
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", B[j], vf::in<B_t>::at("B", j));
}

template <typename A_t, typename B_t>
inline void product_eq()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(A_t, A, "A", n, m);
    auto &B = ABS(B_t, "B");
    vf_keeps("C01:left operand kept", A.data(), "A");
    vf_guard_object("C01:left operand object kept", &A);
    vf_keeps_m("C01:right operand kept", "B");
    // The left operand keeps its shape.
    vf_throws_iff("C01:shape", m != B.rows() || B.cols() != m);
    auto &R = (A *= B);
    vf_eq_p("C06:returns the left operand", &R, &A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < m);
    // Sums are kept in the common type, and narrowed once.
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < m; ++k) {
        s += vf::in<A_t>::at("A", r * m + k) * B(k, c);
    }
    vf::eq("element", A(r, c), static_cast<A_t>(s));
    auto j = vf_n("j");
    vf_assume(j < B.size());
    vf::eq("C06:right operand unchanged", B[j], vf::in<B_t>::at("B", j));
}

inline void product_self()
{
    auto n = vf_n("n");
    MAT(double, A, "A", n, n);
    A *= A;
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < n);
    double s = 0;
    for (size_t k = 0; k < n; ++k) {
        s += vf_in_d("A", r * n + k) * vf_in_d("A", k * n + c);
    }
    vf::eq("element", A(r, c), s);
}

inline void product_view()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(m > 0 && n > m);
    MAT(double, A, "A", m, m);
    MAT(double, B, "B", n, n);
    const View<Matrix<double>> V(&B, 1, m + 1, 0, m);
    A *= V;
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < m && c < m);
    double s = 0;
    for (size_t k = 0; k < m; ++k) {
        s += vf_in_d("A", r * m + k) * vf_in_d("B", (1 + k) * n + c);
    }
    vf::eq("element", A(r, c), s);
}

template <typename A_t, typename B_t>
inline void mat_vec(int which)
{
    auto &A = ABS(A_t, "A");
    auto n = vf_n("n");
    VEC(B_t, b, "B", n);
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_guard_object("C01:right operand object kept", &b);
    vf_throws_iff("C01:shape", A.cols() != n);
    const Vector<B_t> &cb = b;
    auto R = which ? malg::dot(A, cb) : A * cb;
    vf_eq_n("size", R.size(), A.rows());
    auto r = vf_n("r");
    vf_assume(r < A.rows());
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < n; ++k) {
        s += A(r, k) * vf::in<B_t>::at("B", k);
    }
    vf::eq("element", R[r], s);
    auto i = vf_n("i"), j = vf_n("j");
    R[r] = R[r] + R[r];
    vf_assume(i < A.size() && j < n);
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[j], vf::in<B_t>::at("B", j));
}

template <typename A_t, typename B_t>
inline void vec_dot()
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_throws_iff("C01:size", n != m);
    const Vector<A_t> &ca = a;
    const Vector<B_t> &cb = b;
    auto R = malg::dot(ca, cb);
    malg::extract_common_type_t<A_t, B_t> s(0);
    for (size_t k = 0; k < n; ++k) {
        s += vf::in<A_t>::at("A", k) * vf::in<B_t>::at("B", k);
    }
    vf::eq("value", R, s);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("C06:left size unchanged", a.size(), n);
    vf_eq_n("C06:right size unchanged", b.size(), m);
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

PROBE(C03_C01_C06_C07_mm_add_dd)
{
    mat_mat<double, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_dd)
{
    vec_vec<double, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_zz)
{
    mat_mat<cplx, cplx>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_zz)
{
    vec_vec<cplx, cplx>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_id)
{
    mat_mat<int, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_id)
{
    vec_vec<int, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_di)
{
    mat_mat<double, int>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_di)
{
    vec_vec<double, int>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_zd)
{
    mat_mat<cplx, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_zd)
{
    vec_vec<cplx, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_dz)
{
    mat_mat<double, cplx>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_dz)
{
    vec_vec<double, cplx>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_ii)
{
    mat_mat<int, int>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_ii)
{
    vec_vec<int, int>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_ff)
{
    mat_mat<float, float>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_ff)
{
    vec_vec<float, float>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_mm_add_fd)
{
    mat_mat<float, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_C07_vv_add_fd)
{
    vec_vec<float, double>(BIN(+), BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_dd)
{
    mat_mat_eq<double, double>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_dd)
{
    vec_vec_eq<double, double>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_zz)
{
    mat_mat_eq<cplx, cplx>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_zz)
{
    vec_vec_eq<cplx, cplx>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_ii)
{
    mat_mat_eq<int, int>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_ii)
{
    vec_vec_eq<int, int>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_ff)
{
    mat_mat_eq<float, float>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_ff)
{
    vec_vec_eq<float, float>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_di)
{
    mat_mat_eq<double, int>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_di)
{
    vec_vec_eq<double, int>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_mm_addeq_zd)
{
    mat_mat_eq<cplx, double>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C01_C06_vv_addeq_zd)
{
    vec_vec_eq<cplx, double>([](auto &x, auto &y) -> auto & { return x += y; }, BINV(+));
}

PROBE(C03_C06_mm_addeq_self)
{
    mat_self([](auto &x) { x += x; }, BINV(+));
}

PROBE(C03_C06_vv_addeq_self)
{
    vec_self([](auto &x) { x += x; }, BINV(+));
}

PROBE(C03_C01_C06_C07_mm_sub_dd)
{
    mat_mat<double, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_dd)
{
    vec_vec<double, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_zz)
{
    mat_mat<cplx, cplx>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_zz)
{
    vec_vec<cplx, cplx>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_id)
{
    mat_mat<int, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_id)
{
    vec_vec<int, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_di)
{
    mat_mat<double, int>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_di)
{
    vec_vec<double, int>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_zd)
{
    mat_mat<cplx, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_zd)
{
    vec_vec<cplx, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_dz)
{
    mat_mat<double, cplx>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_dz)
{
    vec_vec<double, cplx>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_ii)
{
    mat_mat<int, int>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_ii)
{
    vec_vec<int, int>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_ff)
{
    mat_mat<float, float>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_ff)
{
    vec_vec<float, float>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_mm_sub_fd)
{
    mat_mat<float, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_C07_vv_sub_fd)
{
    vec_vec<float, double>(BIN(-), BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_dd)
{
    mat_mat_eq<double, double>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_dd)
{
    vec_vec_eq<double, double>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_zz)
{
    mat_mat_eq<cplx, cplx>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_zz)
{
    vec_vec_eq<cplx, cplx>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_ii)
{
    mat_mat_eq<int, int>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_ii)
{
    vec_vec_eq<int, int>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_ff)
{
    mat_mat_eq<float, float>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_ff)
{
    vec_vec_eq<float, float>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_di)
{
    mat_mat_eq<double, int>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_di)
{
    vec_vec_eq<double, int>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_mm_subeq_zd)
{
    mat_mat_eq<cplx, double>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C01_C06_vv_subeq_zd)
{
    vec_vec_eq<cplx, double>([](auto &x, auto &y) -> auto & { return x -= y; }, BINV(-));
}

PROBE(C03_C06_mm_subeq_self)
{
    mat_self([](auto &x) { x -= x; }, BINV(-));
}

PROBE(C03_C06_vv_subeq_self)
{
    vec_self([](auto &x) { x -= x; }, BINV(-));
}

PROBE(C03_C01_C06_vv_mul_dd)
{
    vec_vec<double, double>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_zz)
{
    vec_vec<cplx, cplx>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_id)
{
    vec_vec<int, double>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_di)
{
    vec_vec<double, int>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_zd)
{
    vec_vec<cplx, double>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_dz)
{
    vec_vec<double, cplx>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_ii)
{
    vec_vec<int, int>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_ff)
{
    vec_vec<float, float>(BIN(*), BINV(*));
}

PROBE(C03_C01_C06_vv_mul_fd)
{
    vec_vec<float, double>(BIN(*), BINV(*));
}

PROBE(C03_C06_C07_ms_add_dd)
{
    mat_sca<double, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_dd)
{
    vec_sca<double, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_zz)
{
    mat_sca<cplx, cplx>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_zz)
{
    vec_sca<cplx, cplx>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_id)
{
    mat_sca<int, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_id)
{
    vec_sca<int, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_di)
{
    mat_sca<double, int>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_di)
{
    vec_sca<double, int>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_zd)
{
    mat_sca<cplx, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_zd)
{
    vec_sca<cplx, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_dz)
{
    mat_sca<double, cplx>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_dz)
{
    vec_sca<double, cplx>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_ii)
{
    mat_sca<int, int>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_ii)
{
    vec_sca<int, int>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_ff)
{
    mat_sca<float, float>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_ff)
{
    vec_sca<float, float>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_ms_add_fd)
{
    mat_sca<float, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_C07_vs_add_fd)
{
    vec_sca<float, double>(BIN(+), BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_dd)
{
    mat_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_dd)
{
    vec_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_zz)
{
    mat_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_zz)
{
    vec_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_ii)
{
    mat_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_ii)
{
    vec_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_ff)
{
    mat_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_ff)
{
    vec_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_di)
{
    mat_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_di)
{
    vec_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_zd)
{
    mat_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_zd)
{
    vec_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x += y; }, BINV(+), 0);
}

PROBE(C03_C06_ms_addeq_own_element)
{
    mat_own([](auto &x, auto &y) { x += y; }, BINV(+), 0);
}

PROBE(C03_C06_vs_addeq_own_element)
{
    vec_own([](auto &x, auto &y) { x += y; }, BINV(+), 0);
}

PROBE(C03_C06_C07_ms_sub_dd)
{
    mat_sca<double, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_dd)
{
    vec_sca<double, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_zz)
{
    mat_sca<cplx, cplx>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_zz)
{
    vec_sca<cplx, cplx>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_id)
{
    mat_sca<int, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_id)
{
    vec_sca<int, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_di)
{
    mat_sca<double, int>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_di)
{
    vec_sca<double, int>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_zd)
{
    mat_sca<cplx, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_zd)
{
    vec_sca<cplx, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_dz)
{
    mat_sca<double, cplx>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_dz)
{
    vec_sca<double, cplx>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_ii)
{
    mat_sca<int, int>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_ii)
{
    vec_sca<int, int>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_ff)
{
    mat_sca<float, float>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_ff)
{
    vec_sca<float, float>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_ms_sub_fd)
{
    mat_sca<float, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_C07_vs_sub_fd)
{
    vec_sca<float, double>(BIN(-), BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_dd)
{
    mat_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_dd)
{
    vec_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_zz)
{
    mat_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_zz)
{
    vec_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_ii)
{
    mat_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_ii)
{
    vec_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_ff)
{
    mat_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_ff)
{
    vec_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_di)
{
    mat_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_di)
{
    vec_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_zd)
{
    mat_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_zd)
{
    vec_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_ms_subeq_own_element)
{
    mat_own([](auto &x, auto &y) { x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_vs_subeq_own_element)
{
    vec_own([](auto &x, auto &y) { x -= y; }, BINV(-), 0);
}

PROBE(C03_C06_C07_ms_mul_dd)
{
    mat_sca<double, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_dd)
{
    vec_sca<double, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_zz)
{
    mat_sca<cplx, cplx>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_zz)
{
    vec_sca<cplx, cplx>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_id)
{
    mat_sca<int, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_id)
{
    vec_sca<int, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_di)
{
    mat_sca<double, int>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_di)
{
    vec_sca<double, int>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_zd)
{
    mat_sca<cplx, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_zd)
{
    vec_sca<cplx, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_dz)
{
    mat_sca<double, cplx>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_dz)
{
    vec_sca<double, cplx>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_ii)
{
    mat_sca<int, int>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_ii)
{
    vec_sca<int, int>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_ff)
{
    mat_sca<float, float>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_ff)
{
    vec_sca<float, float>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_ms_mul_fd)
{
    mat_sca<float, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_C07_vs_mul_fd)
{
    vec_sca<float, double>(BIN(*), BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_dd)
{
    mat_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_dd)
{
    vec_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_zz)
{
    mat_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_zz)
{
    vec_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_ii)
{
    mat_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_ii)
{
    vec_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_ff)
{
    mat_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_ff)
{
    vec_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_di)
{
    mat_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_di)
{
    vec_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_zd)
{
    mat_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_zd)
{
    vec_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_ms_muleq_own_element)
{
    mat_own([](auto &x, auto &y) { x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_vs_muleq_own_element)
{
    vec_own([](auto &x, auto &y) { x *= y; }, BINV(*), 0);
}

PROBE(C03_C06_C07_ms_div_dd)
{
    mat_sca<double, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_dd)
{
    vec_sca<double, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_zz)
{
    mat_sca<cplx, cplx>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_zz)
{
    vec_sca<cplx, cplx>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_id)
{
    mat_sca<int, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_id)
{
    vec_sca<int, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_di)
{
    mat_sca<double, int>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_di)
{
    vec_sca<double, int>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_zd)
{
    mat_sca<cplx, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_zd)
{
    vec_sca<cplx, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_dz)
{
    mat_sca<double, cplx>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_dz)
{
    vec_sca<double, cplx>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_ii)
{
    mat_sca<int, int>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_ii)
{
    vec_sca<int, int>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_ff)
{
    mat_sca<float, float>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_ff)
{
    vec_sca<float, float>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_ms_div_fd)
{
    mat_sca<float, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_C07_vs_div_fd)
{
    vec_sca<float, double>(BIN(/), BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_dd)
{
    mat_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_dd)
{
    vec_sca_eq<double, double>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_zz)
{
    mat_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_zz)
{
    vec_sca_eq<cplx, cplx>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_ii)
{
    mat_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_ii)
{
    vec_sca_eq<int, int>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_ff)
{
    mat_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_ff)
{
    vec_sca_eq<float, float>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_di)
{
    mat_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_di)
{
    vec_sca_eq<double, int>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_zd)
{
    mat_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_zd)
{
    vec_sca_eq<cplx, double>([](auto &x, auto y) -> auto & { return x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_ms_diveq_own_element)
{
    mat_own([](auto &x, auto &y) { x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_vs_diveq_own_element)
{
    vec_own([](auto &x, auto &y) { x /= y; }, BINV(/), 1);
}

PROBE(C03_C06_C07_sm_mul_dd)
{
    sca_mat<double, double>();
}

PROBE(C03_C06_C07_sv_mul_dd)
{
    sca_vec<double, double>();
}

PROBE(C04_C01_C06_C07_mul_dd)
{
    product<double, double>();
}

PROBE(C04_C01_C06_C07_mulv_dd)
{
    mat_vec<double, double>(0);
}

PROBE(C04_C01_C06_C07_dotm_dd)
{
    mat_vec<double, double>(1);
}

PROBE(C04_C01_C06_C07_dot_dd)
{
    vec_dot<double, double>();
}

PROBE(C03_C06_C07_sm_mul_zz)
{
    sca_mat<cplx, cplx>();
}

PROBE(C04_C01_C06_C07_mul_zz)
{
    product<cplx, cplx>();
}

PROBE(C04_C01_C06_C07_mulv_zz)
{
    mat_vec<cplx, cplx>(0);
}

PROBE(C04_C01_C06_C07_dotm_zz)
{
    mat_vec<cplx, cplx>(1);
}

PROBE(C04_C01_C06_C07_dot_zz)
{
    vec_dot<cplx, cplx>();
}

PROBE(C03_C06_C07_sm_mul_id)
{
    sca_mat<int, double>();
}

PROBE(C03_C06_C07_sv_mul_id)
{
    sca_vec<int, double>();
}

PROBE(C04_C01_C06_C07_mul_id)
{
    product<int, double>();
}

PROBE(C04_C01_C06_C07_mulv_id)
{
    mat_vec<int, double>(0);
}

PROBE(C04_C01_C06_C07_dotm_id)
{
    mat_vec<int, double>(1);
}

PROBE(C04_C01_C06_C07_dot_id)
{
    vec_dot<int, double>();
}

PROBE(C03_C06_C07_sm_mul_di)
{
    sca_mat<double, int>();
}

PROBE(C03_C06_C07_sv_mul_di)
{
    sca_vec<double, int>();
}

PROBE(C04_C01_C06_C07_mul_di)
{
    product<double, int>();
}

PROBE(C04_C01_C06_C07_mulv_di)
{
    mat_vec<double, int>(0);
}

PROBE(C04_C01_C06_C07_dotm_di)
{
    mat_vec<double, int>(1);
}

PROBE(C04_C01_C06_C07_dot_di)
{
    vec_dot<double, int>();
}

PROBE(C03_C06_C07_sm_mul_zd)
{
    sca_mat<cplx, double>();
}

PROBE(C04_C01_C06_C07_mul_zd)
{
    product<cplx, double>();
}

PROBE(C04_C01_C06_C07_mulv_zd)
{
    mat_vec<cplx, double>(0);
}

PROBE(C04_C01_C06_C07_dotm_zd)
{
    mat_vec<cplx, double>(1);
}

PROBE(C04_C01_C06_C07_dot_zd)
{
    vec_dot<cplx, double>();
}

PROBE(C03_C06_C07_sm_mul_dz)
{
    sca_mat<double, cplx>();
}

PROBE(C03_C06_C07_sv_mul_dz)
{
    sca_vec<double, cplx>();
}

PROBE(C04_C01_C06_C07_mul_dz)
{
    product<double, cplx>();
}

PROBE(C04_C01_C06_C07_mulv_dz)
{
    mat_vec<double, cplx>(0);
}

PROBE(C04_C01_C06_C07_dotm_dz)
{
    mat_vec<double, cplx>(1);
}

PROBE(C04_C01_C06_C07_dot_dz)
{
    vec_dot<double, cplx>();
}

PROBE(C03_C06_C07_sm_mul_ii)
{
    sca_mat<int, int>();
}

PROBE(C03_C06_C07_sv_mul_ii)
{
    sca_vec<int, int>();
}

PROBE(C04_C01_C06_C07_mul_ii)
{
    product<int, int>();
}

PROBE(C04_C01_C06_C07_mulv_ii)
{
    mat_vec<int, int>(0);
}

PROBE(C04_C01_C06_C07_dotm_ii)
{
    mat_vec<int, int>(1);
}

PROBE(C04_C01_C06_C07_dot_ii)
{
    vec_dot<int, int>();
}

PROBE(C03_C06_C07_sm_mul_ff)
{
    sca_mat<float, float>();
}

PROBE(C03_C06_C07_sv_mul_ff)
{
    sca_vec<float, float>();
}

PROBE(C04_C01_C06_C07_mul_ff)
{
    product<float, float>();
}

PROBE(C04_C01_C06_C07_mulv_ff)
{
    mat_vec<float, float>(0);
}

PROBE(C04_C01_C06_C07_dotm_ff)
{
    mat_vec<float, float>(1);
}

PROBE(C04_C01_C06_C07_dot_ff)
{
    vec_dot<float, float>();
}

PROBE(C03_C06_C07_sm_mul_fd)
{
    sca_mat<float, double>();
}

PROBE(C03_C06_C07_sv_mul_fd)
{
    sca_vec<float, double>();
}

PROBE(C04_C01_C06_C07_mul_fd)
{
    product<float, double>();
}

PROBE(C04_C01_C06_C07_mulv_fd)
{
    mat_vec<float, double>(0);
}

PROBE(C04_C01_C06_C07_dotm_fd)
{
    mat_vec<float, double>(1);
}

PROBE(C04_C01_C06_C07_dot_fd)
{
    vec_dot<float, double>();
}

PROBE(C04_C01_C06_C07_muleq_dd)
{
    product_eq<double, double>();
}

PROBE(C04_C01_C06_C07_muleq_ii)
{
    product_eq<int, int>();
}

PROBE(C04_C01_C06_C07_muleq_ff)
{
    product_eq<float, float>();
}

PROBE(C04_C01_C06_C07_muleq_zz)
{
    product_eq<cplx, cplx>();
}

PROBE(C04_C01_C06_C07_muleq_di)
{
    product_eq<double, int>();
}

PROBE(C04_C01_C06_C07_muleq_zd)
{
    product_eq<cplx, double>();
}

PROBE(C04_C01_C06_C07_muleq_id)
{
    product_eq<int, double>();
}

PROBE(C04_C01_C06_C07_muleq_fd)
{
    product_eq<float, double>();
}

PROBE(C04_C06_muleq_self)
{
    product_self();
}

PROBE(C04_C06_muleq_view)
{
    product_view();
}
