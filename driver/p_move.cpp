// Written by tools/gen_tpl.py from move.tpl.
// Builders and conversions (C15); stacking, extraction, swapping, removal, transposition (C16).
#include "vfm.hpp"
#include "malg/linalg.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
static size_t least(size_t a, size_t b) { return a < b ? a : b; }


template <typename T> static void t_eye()
{
    auto n = vf_n("n"), m = vf_n("m");
    T x = vf::in<T>::at("x", 0);
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::eye<T>(n, m, x);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), i == j ? x : T(0));
}

PROBE(C15_C08_C02_eye_d)
{
    t_eye<double>();
}

PROBE(C15_C08_C02_eye_z)
{
    t_eye<cplx>();
}

PROBE(C15_C08_C02_eye_i)
{
    t_eye<int>();
}

PROBE(C15_C08_C02_eye_f)
{
    t_eye<float>();
}

template <typename T> static void t_identity()
{
    auto n = vf_n("n");
    T x = vf::in<T>::at("x", 0);
    vf_throws_iff("rejects zero sizes", n == 0);
    auto A = utility::identity<T>(n);
    auto B = utility::identity<T>(n, x);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    vf_eq_n("rows of scaled", B.rows(), n);
    vf_eq_n("cols of scaled", B.cols(), n);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    vf::eq("element", A(i, j), i == j ? T(1) : T(0));
    vf::eq("element of scaled", B(i, j), i == j ? x : T(0));
}

PROBE(C15_C08_identity_d)
{
    t_identity<double>();
}

PROBE(C15_C08_identity_z)
{
    t_identity<cplx>();
}

PROBE(C15_C08_identity_i)
{
    t_identity<int>();
}

PROBE(C15_C08_identity_f)
{
    t_identity<float>();
}

template <typename T> static void t_zeros()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::zeros<T>(n, m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), T(0));
}

PROBE(C15_C08_zeros_d)
{
    t_zeros<double>();
}

PROBE(C15_C08_zeros_z)
{
    t_zeros<cplx>();
}

PROBE(C15_C08_zeros_i)
{
    t_zeros<int>();
}

PROBE(C15_C08_zeros_f)
{
    t_zeros<float>();
}

template <typename T> static void t_ones()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::ones<T>(n, m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), T(1));
}

PROBE(C15_C08_ones_d)
{
    t_ones<double>();
}

PROBE(C15_C08_ones_z)
{
    t_ones<cplx>();
}

PROBE(C15_C08_ones_i)
{
    t_ones<int>();
}

PROBE(C15_C08_ones_f)
{
    t_ones<float>();
}

template <typename T> static void t_vzeros()
{
    auto n = vf_n("n");
    vf_throws_iff("rejects zero size", n == 0);
    auto a = utility::zeros<T>(n);
    vf_eq_n("size", a.size(), n);
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], T(0));
}

PROBE(C15_C08_vzeros_d)
{
    t_vzeros<double>();
}

PROBE(C15_C08_vzeros_z)
{
    t_vzeros<cplx>();
}

PROBE(C15_C08_vzeros_i)
{
    t_vzeros<int>();
}

PROBE(C15_C08_vzeros_f)
{
    t_vzeros<float>();
}

template <typename T> static void t_vones()
{
    auto n = vf_n("n");
    vf_throws_iff("rejects zero size", n == 0);
    auto a = utility::ones<T>(n);
    vf_eq_n("size", a.size(), n);
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], T(1));
}

PROBE(C15_C08_vones_d)
{
    t_vones<double>();
}

PROBE(C15_C08_vones_z)
{
    t_vones<cplx>();
}

PROBE(C15_C08_vones_i)
{
    t_vones<int>();
}

PROBE(C15_C08_vones_f)
{
    t_vones<float>();
}

template <typename T> static void t_diagm()
{
    auto &A = ABS(T, "A");
    auto a = utility::diag(A);
    vf_eq_n("size", a.size(), least(A.rows(), A.cols()));
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < a.size());
    vf::eq("element", a[i], A(i, i));
    vf::eq("C06:operand", A(i, i), vf::in<T>::at("A", i * A.cols() + i));
}

PROBE(C15_C06_C08_diagm_d)
{
    t_diagm<double>();
}

PROBE(C15_C06_C08_diagm_z)
{
    t_diagm<cplx>();
}

PROBE(C15_C06_C08_diagm_i)
{
    t_diagm<int>();
}

PROBE(C15_C06_C08_diagm_f)
{
    t_diagm<float>();
}

template <typename T> static void t_diagv()
{
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto A = utility::diag(ca);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    vf::eq("element", A(i, j), i == j ? vf::in<T>::at("a", i) : T(0));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));
}

PROBE(C15_C06_C08_diagv_d)
{
    t_diagv<double>();
}

PROBE(C15_C06_C08_diagv_z)
{
    t_diagv<cplx>();
}

PROBE(C15_C06_C08_diagv_i)
{
    t_diagv<int>();
}

PROBE(C15_C06_C08_diagv_f)
{
    t_diagv<float>();
}

template <typename T> static void t_diagvv()
{
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    auto b = utility::diag(utility::diag(a));
    vf_eq_n("size", b.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("diagonal of the diagonal matrix", b[i], a[i]);
}

PROBE(C15_diagvv_d)
{
    t_diagvv<double>();
}

PROBE(C15_diagvv_z)
{
    t_diagvv<cplx>();
}

PROBE(C15_diagvv_i)
{
    t_diagvv<int>();
}

PROBE(C15_diagvv_f)
{
    t_diagvv<float>();
}

template <typename T> static void t_to_matrix()
{
    auto n = vf_n("n");
    auto row = vf_b("row");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto A = utility::to_matrix(ca, row);
    vf_eq_n("rows", A.rows(), row ? 1 : n);
    vf_eq_n("cols", A.cols(), row ? n : 1);
    vf::stored(A);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", row ? A(0, i) : A(i, 0), vf::in<T>::at("a", i));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));
}

PROBE(C15_C06_C08_to_matrix_d)
{
    t_to_matrix<double>();
}

PROBE(C15_C06_C08_to_matrix_z)
{
    t_to_matrix<cplx>();
}

PROBE(C15_C06_C08_to_matrix_i)
{
    t_to_matrix<int>();
}

PROBE(C15_C06_C08_to_matrix_f)
{
    t_to_matrix<float>();
}

template <typename T> static void t_to_vector()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    const auto &cA = A;
    auto a = utility::to_vector(cA);
    vf_eq_n("size", a.size(), n * m);
    vf::stored(a);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
#ifdef ROW_MAJOR
    vf::eq("element", a[i * m + j], A(i, j));
#else
    vf::eq("element", a[i + j * n], A(i, j));
#endif
    vf::eq("C06:operand", A[i * m + j], vf::in<T>::at("S", i * m + j));
}

PROBE(C15_C06_C08_to_vector_d)
{
    t_to_vector<double>();
}

PROBE(C15_C06_C08_to_vector_z)
{
    t_to_vector<cplx>();
}

PROBE(C15_C06_C08_to_vector_i)
{
    t_to_vector<int>();
}

PROBE(C15_C06_C08_to_vector_f)
{
    t_to_vector<float>();
}

template <typename T> static void t_ravel()
{
    auto &A = ABS(T, "A");
    auto a = utility::ravel(A);
    vf_eq_n("size", a.size(), A.rows() * A.cols());
    vf::stored(a);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
#ifdef ROW_MAJOR
    vf::eq("element", a[i * A.cols() + j], A(i, j));
#else
    vf::eq("element", a[i + j * A.rows()], A(i, j));
#endif
}

PROBE(C15_C06_C08_ravel_d)
{
    t_ravel<double>();
}

PROBE(C15_C06_C08_ravel_z)
{
    t_ravel<cplx>();
}

PROBE(C15_C06_C08_ravel_i)
{
    t_ravel<int>();
}

PROBE(C15_C06_C08_ravel_f)
{
    t_ravel<float>();
}

template <typename T> static void t_to_vector_to_matrix()
{
    auto n = vf_n("n");
    auto row = vf_b("row");
    VEC(T, a, "a", n);
    auto b = utility::to_vector(utility::to_matrix(a, row));
    vf_eq_n("size", b.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("back to the vector", b[i], a[i]);
}

PROBE(C15_to_vector_to_matrix_d)
{
    t_to_vector_to_matrix<double>();
}

PROBE(C15_to_vector_to_matrix_z)
{
    t_to_vector_to_matrix<cplx>();
}

PROBE(C15_to_vector_to_matrix_i)
{
    t_to_vector_to_matrix<int>();
}

PROBE(C15_to_vector_to_matrix_f)
{
    t_to_vector_to_matrix<float>();
}

template <typename T, typename U> static void t_vstack()
{
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:columns", A.cols() != B.cols());
    auto C = utility::vstack(A, B);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows() + B.rows());
    vf_eq_n("cols", C.cols(), A.cols());
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j"), k = vf_n("k");
    vf_assume(j < A.cols() && i < A.rows() && k < B.rows());
    vf::eq("upper", C(i, j), R(A(i, j)));
    vf::eq("lower", C(A.rows() + k, j), R(B(k, j)));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));
}

PROBE(C16_C01_C06_C07_C08_vstack_dd)
{
    t_vstack<double, double>();
}

PROBE(C16_C01_C06_C07_C08_vstack_zz)
{
    t_vstack<cplx, cplx>();
}

PROBE(C16_C01_C06_C07_C08_vstack_ii)
{
    t_vstack<int, int>();
}

PROBE(C16_C01_C06_C07_C08_vstack_ff)
{
    t_vstack<float, float>();
}

PROBE(C16_C01_C06_C07_C08_vstack_di)
{
    t_vstack<double, int>();
}

PROBE(C16_C01_C06_C07_C08_vstack_id)
{
    t_vstack<int, double>();
}

PROBE(C16_C01_C06_C07_C08_vstack_zd)
{
    t_vstack<cplx, double>();
}

PROBE(C16_C01_C06_C07_C08_vstack_dz)
{
    t_vstack<double, cplx>();
}

PROBE(C16_C01_C06_C07_C08_vstack_fd)
{
    t_vstack<float, double>();
}

template <typename T, typename U> static void t_vstack_upper()
{
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_assume(A.cols() == B.cols());
    auto C = utility::vstack(A, B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < A.cols() && i < C.rows());
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    vf::eq("element", C(i, j), i < A.rows() ? R(A(i, j)) : R(B(i - A.rows(), j)));
}

PROBE(C16_vstack_upper_dd)
{
    t_vstack_upper<double, double>();
}

PROBE(C16_vstack_upper_zz)
{
    t_vstack_upper<cplx, cplx>();
}

PROBE(C16_vstack_upper_ii)
{
    t_vstack_upper<int, int>();
}

template <typename T, typename U> static void t_vstackv()
{
    auto &A = ABS(T, "A");
    auto n = vf_n("n");
    VEC(U, b, "b", n);
    vf_throws_iff("C01:columns", A.cols() != n);
    auto C = utility::vstack(A, b);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows() + 1);
    vf_eq_n("cols", C.cols(), n);
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < n && i < A.rows());
    vf::eq("upper", C(i, j), R(A(i, j)));
    vf::eq("last row", C(A.rows(), j), R(b[j]));
    vf::eq("C06:operand", b[j], vf::in<U>::at("b", j));
}

PROBE(C16_C01_C06_C07_C08_vstackv_dd)
{
    t_vstackv<double, double>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_zz)
{
    t_vstackv<cplx, cplx>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_ii)
{
    t_vstackv<int, int>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_ff)
{
    t_vstackv<float, float>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_di)
{
    t_vstackv<double, int>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_id)
{
    t_vstackv<int, double>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_zd)
{
    t_vstackv<cplx, double>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_dz)
{
    t_vstackv<double, cplx>();
}

PROBE(C16_C01_C06_C07_C08_vstackv_fd)
{
    t_vstackv<float, double>();
}

template <typename T, typename U> static void t_hstack()
{
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:rows", A.rows() != B.rows());
    auto C = utility::hstack(A, B);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows());
    vf_eq_n("cols", C.cols(), A.cols() + B.cols());
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j"), k = vf_n("k");
    vf_assume(i < A.rows() && j < A.cols() && k < B.cols());
    vf::eq("left", C(i, j), R(A(i, j)));
    vf::eq("right", C(i, A.cols() + k), R(B(i, k)));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));
}

PROBE(C16_C01_C06_C07_C08_hstack_dd)
{
    t_hstack<double, double>();
}

PROBE(C16_C01_C06_C07_C08_hstack_zz)
{
    t_hstack<cplx, cplx>();
}

PROBE(C16_C01_C06_C07_C08_hstack_ii)
{
    t_hstack<int, int>();
}

PROBE(C16_C01_C06_C07_C08_hstack_ff)
{
    t_hstack<float, float>();
}

PROBE(C16_C01_C06_C07_C08_hstack_di)
{
    t_hstack<double, int>();
}

PROBE(C16_C01_C06_C07_C08_hstack_id)
{
    t_hstack<int, double>();
}

PROBE(C16_C01_C06_C07_C08_hstack_zd)
{
    t_hstack<cplx, double>();
}

PROBE(C16_C01_C06_C07_C08_hstack_dz)
{
    t_hstack<double, cplx>();
}

PROBE(C16_C01_C06_C07_C08_hstack_fd)
{
    t_hstack<float, double>();
}

template <typename T, typename U> static void t_hstackv()
{
    auto &A = ABS(T, "A");
    auto n = vf_n("n");
    VEC(U, b, "b", n);
    vf_throws_iff("C01:rows", A.rows() != n);
    auto C = utility::hstack(A, b);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), n);
    vf_eq_n("cols", C.cols(), A.cols() + 1);
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < A.cols() && i < n);
    vf::eq("left", C(i, j), R(A(i, j)));
    vf::eq("last column", C(i, A.cols()), R(b[i]));
    vf::eq("C06:operand", b[i], vf::in<U>::at("b", i));
}

PROBE(C16_C01_C06_C07_C08_hstackv_dd)
{
    t_hstackv<double, double>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_zz)
{
    t_hstackv<cplx, cplx>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_ii)
{
    t_hstackv<int, int>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_ff)
{
    t_hstackv<float, float>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_di)
{
    t_hstackv<double, int>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_id)
{
    t_hstackv<int, double>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_zd)
{
    t_hstackv<cplx, double>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_dz)
{
    t_hstackv<double, cplx>();
}

PROBE(C16_C01_C06_C07_C08_hstackv_fd)
{
    t_hstackv<float, double>();
}

template <typename T, typename U> static void t_concatenate()
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(T, a, "a", n);
    VEC(U, b, "b", m);
    const auto &ca = a;
    const auto &cb = b;
    auto c = utility::concatenate(ca, cb);
    typedef std::remove_const_t<typename decltype(c)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("size", c.size(), n + m);
    vf::stored(c);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("first", c[i], R(a[i]));
    vf::eq("second", c[n + j], R(b[j]));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));
}

PROBE(C16_C06_C07_C08_concatenate_dd)
{
    t_concatenate<double, double>();
}

PROBE(C16_C06_C07_C08_concatenate_zz)
{
    t_concatenate<cplx, cplx>();
}

PROBE(C16_C06_C07_C08_concatenate_ii)
{
    t_concatenate<int, int>();
}

PROBE(C16_C06_C07_C08_concatenate_ff)
{
    t_concatenate<float, float>();
}

PROBE(C16_C06_C07_C08_concatenate_di)
{
    t_concatenate<double, int>();
}

PROBE(C16_C06_C07_C08_concatenate_id)
{
    t_concatenate<int, double>();
}

PROBE(C16_C06_C07_C08_concatenate_zd)
{
    t_concatenate<cplx, double>();
}

PROBE(C16_C06_C07_C08_concatenate_dz)
{
    t_concatenate<double, cplx>();
}

PROBE(C16_C06_C07_C08_concatenate_fd)
{
    t_concatenate<float, double>();
}

template <typename T> static void t_extract()
{
    auto &A = ABS(T, "A");
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_throws_iff("C02:ranges", r0 >= r1 || c0 >= c1 || r0 > A.rows() || c0 > A.cols());
    auto B = utility::extract(A, r0, r1, c0, c1);
    vf_eq_n("rows", B.rows(), least(r1, A.rows()) - r0);
    vf_eq_n("cols", B.cols(), least(c1, A.cols()) - c0);
    vf::stored(B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < B.rows() && j < B.cols());
    vf::eq("element", B(i, j), A(r0 + i, c0 + j));
}

PROBE(C16_C02_C06_C08_extract_d)
{
    t_extract<double>();
}

PROBE(C16_C02_C06_C08_extract_z)
{
    t_extract<cplx>();
}

PROBE(C16_C02_C06_C08_extract_i)
{
    t_extract<int>();
}

PROBE(C16_C02_C06_C08_extract_f)
{
    t_extract<float>();
}

template <typename T> static void t_extract_all()
{
    auto &A = ABS(T, "A");
    auto B = utility::extract(A);
    vf_eq_n("rows", B.rows(), A.rows());
    vf_eq_n("cols", B.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < B.rows() && j < B.cols());
    vf::eq("element", B(i, j), A(i, j));
}

PROBE(C16_C02_extract_all_d)
{
    t_extract_all<double>();
}

PROBE(C16_C02_extract_all_z)
{
    t_extract_all<cplx>();
}

PROBE(C16_C02_extract_all_i)
{
    t_extract_all<int>();
}

PROBE(C16_C02_extract_all_f)
{
    t_extract_all<float>();
}

template <typename T> static void t_extract_column()
{
    auto &A = ABS(T, "A");
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c = vf_n("c");
    vf_throws_iff("C02:ranges", r0 >= r1 || r0 > A.rows() || c >= A.cols());
    auto b = utility::extract_column(A, c, r0, r1);
    vf_eq_n("size", b.size(), least(r1, A.rows()) - r0);
    vf::stored(b);
    auto i = vf_n("i");
    vf_assume(i < b.size());
    vf::eq("element", b[i], A(r0 + i, c));
}

PROBE(C16_C02_C06_C08_extract_column_d)
{
    t_extract_column<double>();
}

PROBE(C16_C02_C06_C08_extract_column_z)
{
    t_extract_column<cplx>();
}

PROBE(C16_C02_C06_C08_extract_column_i)
{
    t_extract_column<int>();
}

PROBE(C16_C02_C06_C08_extract_column_f)
{
    t_extract_column<float>();
}

template <typename T> static void t_extract_row()
{
    auto &A = ABS(T, "A");
    auto c0 = vf_n("c0"), c1 = vf_n("c1"), r = vf_n("r");
    vf_throws_iff("C02:ranges", c0 >= c1 || c0 > A.cols() || r >= A.rows());
    auto b = utility::extract_row(A, r, c0, c1);
    vf_eq_n("size", b.size(), least(c1, A.cols()) - c0);
    vf::stored(b);
    auto i = vf_n("i");
    vf_assume(i < b.size());
    vf::eq("element", b[i], A(r, c0 + i));
}

PROBE(C16_C02_C06_C08_extract_row_d)
{
    t_extract_row<double>();
}

PROBE(C16_C02_C06_C08_extract_row_z)
{
    t_extract_row<cplx>();
}

PROBE(C16_C02_C06_C08_extract_row_i)
{
    t_extract_row<int>();
}

PROBE(C16_C02_C06_C08_extract_row_f)
{
    t_extract_row<float>();
}

template <typename T> static void t_extract_lines()
{
    auto &A = ABS(T, "A");
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < A.cols());
    auto a = utility::extract_column(A, c);
    auto b = utility::extract_row(A, r);
    vf_eq_n("length of the column", a.size(), A.rows());
    vf_eq_n("length of the row", b.size(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("column", a[i], A(i, c));
    vf::eq("row", b[j], A(r, j));
}

PROBE(C16_C02_extract_lines_d)
{
    t_extract_lines<double>();
}

PROBE(C16_C02_extract_lines_z)
{
    t_extract_lines<cplx>();
}

PROBE(C16_C02_extract_lines_i)
{
    t_extract_lines<int>();
}

PROBE(C16_C02_extract_lines_f)
{
    t_extract_lines<float>();
}

template <typename T> static void t_swap_rows()
{
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), c0 = vf_n("c0"), c1 = vf_n("c1");
    auto n = A.rows(), m = A.cols();
    vf_keeps_m("C01:operand kept", "A");
    vf_throws_iff("C02:rows exist", p >= n || q >= n);
    utility::swap_rows(A, p, q, c0, c1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    bool in = j >= c0 && j < c1;
    size_t from = in && i == p ? q : in && i == q ? p : i;
    vf::eq("element", A(i, j), vf::in<T>::at("A", from * m + j));
}

PROBE(C16_C02_swap_rows_d)
{
    t_swap_rows<double>();
}

PROBE(C16_C02_swap_rows_z)
{
    t_swap_rows<cplx>();
}

PROBE(C16_C02_swap_rows_i)
{
    t_swap_rows<int>();
}

PROBE(C16_C02_swap_rows_f)
{
    t_swap_rows<float>();
}

template <typename T> static void t_swap_cols()
{
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), r0 = vf_n("r0"), r1 = vf_n("r1");
    auto n = A.rows(), m = A.cols();
    vf_keeps_m("C01:operand kept", "A");
    vf_throws_iff("C02:columns exist", p >= m || q >= m);
    utility::swap_cols(A, p, q, r0, r1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    bool in = i >= r0 && i < r1;
    size_t from = in && j == p ? q : in && j == q ? p : j;
    vf::eq("element", A(i, j), vf::in<T>::at("A", i * m + from));
}

PROBE(C16_C02_swap_cols_d)
{
    t_swap_cols<double>();
}

PROBE(C16_C02_swap_cols_z)
{
    t_swap_cols<cplx>();
}

PROBE(C16_C02_swap_cols_i)
{
    t_swap_cols<int>();
}

PROBE(C16_C02_swap_cols_f)
{
    t_swap_cols<float>();
}

template <typename T> static void t_swap_rows_twice()
{
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q");
    auto n = A.rows(), m = A.cols();
    vf_assume(p < n && q < n);
    utility::swap_rows(A, p, q);
    utility::swap_rows(A, q, p);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("back", A(i, j), vf::in<T>::at("A", i * m + j));
}

PROBE(C16_swap_rows_twice_d)
{
    t_swap_rows_twice<double>();
}

PROBE(C16_swap_rows_twice_z)
{
    t_swap_rows_twice<cplx>();
}

template <typename T> static void t_swap_cols_twice()
{
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q");
    auto n = A.rows(), m = A.cols();
    vf_assume(p < m && q < m);
    utility::swap_cols(A, p, q);
    utility::swap_cols(A, p, q);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("back", A(i, j), vf::in<T>::at("A", i * m + j));
}

PROBE(C16_swap_cols_twice_d)
{
    t_swap_cols_twice<double>();
}

PROBE(C16_swap_cols_twice_z)
{
    t_swap_cols_twice<cplx>();
}

template <typename T> static void t_remove_row()
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p");
    MAT(T, A, "S", n, m);
    vf_keeps("C01:operand kept", A.data(), "S");
    vf_throws_iff("C02:row exists", p >= n);
    auto &B = utility::remove_row(A, p);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), n - 1);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n - 1 && j < m);
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", (i < p ? i : i + 1) * m + j));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", (i < p ? i : i + 1) + j * n));
#endif
}

PROBE(C16_C02_C08_C11_remove_row_d)
{
    t_remove_row<double>();
}

PROBE(C16_C02_C08_C11_remove_row_z)
{
    t_remove_row<cplx>();
}

PROBE(C16_C02_C08_C11_remove_row_i)
{
    t_remove_row<int>();
}

PROBE(C16_C02_C08_C11_remove_row_f)
{
    t_remove_row<float>();
}

template <typename T> static void t_remove_column()
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p");
    MAT(T, A, "S", n, m);
    vf_keeps("C01:operand kept", A.data(), "S");
    vf_throws_iff("C02:column exists", p >= m);
    auto &B = utility::remove_column(A, p);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m - 1);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m - 1);
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", i * m + (j < p ? j : j + 1)));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", i + (j < p ? j : j + 1) * n));
#endif
}

PROBE(C16_C02_C08_C11_remove_column_d)
{
    t_remove_column<double>();
}

PROBE(C16_C02_C08_C11_remove_column_z)
{
    t_remove_column<cplx>();
}

PROBE(C16_C02_C08_C11_remove_column_i)
{
    t_remove_column<int>();
}

PROBE(C16_C02_C08_C11_remove_column_f)
{
    t_remove_column<float>();
}

template <typename T> static void t_transpose()
{
    auto &A = ABS(T, "A");
    auto B = linalg::transpose(A);
    vf_eq_n("rows", B.rows(), A.cols());
    vf_eq_n("cols", B.cols(), A.rows());
    vf::stored(B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", B(j, i), A(i, j));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));
}

PROBE(C16_C06_C08_transpose_d)
{
    t_transpose<double>();
}

PROBE(C16_C06_C08_transpose_z)
{
    t_transpose<cplx>();
}

PROBE(C16_C06_C08_transpose_i)
{
    t_transpose<int>();
}

PROBE(C16_C06_C08_transpose_f)
{
    t_transpose<float>();
}

template <typename T> static void t_transpose_twice()
{
    auto &A = ABS(T, "A");
    auto B = linalg::transpose(linalg::transpose(A));
    vf_eq_n("rows", B.rows(), A.rows());
    vf_eq_n("cols", B.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", B(i, j), A(i, j));
}

PROBE(C16_transpose_twice_d)
{
    t_transpose_twice<double>();
}

PROBE(C16_transpose_twice_z)
{
    t_transpose_twice<cplx>();
}

PROBE(C16_transpose_twice_i)
{
    t_transpose_twice<int>();
}

PROBE(C16_transpose_twice_f)
{
    t_transpose_twice<float>();
}

template <typename T> static void t_view_fn()
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    vf_assume(p < n && q < m);
    auto v = utility::view(A);
    auto r = utility::row(A, p);
    auto c = utility::col(A, q);
    vf_eq_n("C13:rows of the whole view", v.rows(), n);
    vf_eq_n("C13:cols of the whole view", v.cols(), m);
    vf_eq_n("C13:rows of a row", r.rows(), 1);
    vf_eq_n("C13:cols of a row", r.cols(), m);
    vf_eq_n("C13:rows of a column", c.rows(), n);
    vf_eq_n("C13:cols of a column", c.cols(), 1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_p("C13:view", &v(i, j), &A(i, j));
    vf_eq_p("C13:row", &r(0, j), &A(p, j));
    vf_eq_p("C13:column", &c(i, 0), &A(i, q));
}

PROBE(C13_C16_view_fn_d)
{
    t_view_fn<double>();
}

PROBE(C13_C16_view_fn_z)
{
    t_view_fn<cplx>();
}

template <typename T> static void t_reshape_fn()
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    vf_throws_iff("same number of elements", n * m != p * q);
    auto &B = utility::reshape(A, p, q);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), p);
    vf_eq_n("cols", A.cols(), q);
    auto i = vf_n("i");
    vf_assume(i < n * m);
    vf::eq("element", A[i], vf::in<T>::at("S", i));
}

PROBE(C11_reshape_fn_d)
{
    t_reshape_fn<double>();
}

PROBE(C11_reshape_fn_z)
{
    t_reshape_fn<cplx>();
}

template <typename T> static void t_resize_fn()
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    auto &B = utility::resize(A, p, q);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), p);
    vf_eq_n("cols", A.cols(), q);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < least(n, p) && j < least(m, q));
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", i * m + j));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", i + j * n));
#endif
}

PROBE(C11_resize_fn_d)
{
    t_resize_fn<double>();
}

PROBE(C11_resize_fn_z)
{
    t_resize_fn<cplx>();
}
