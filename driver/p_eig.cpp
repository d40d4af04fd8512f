// Written by tools/gen_tpl.py from eig.tpl.
// Structure of the Hessenberg, Givens and triangular eigenvector computations (C33).
#include "vfm.hpp"
#include "malg/eigen.hpp"
namespace eigen = malg::eigen;
template <typename T> static T mul2(const Matrix<T> &a, const Matrix<T> &b, size_t r, size_t c)
{
    return a(r, 0) * b(0, c) + a(r, 1) * b(1, c);
}


template <typename T> static void t_square()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", A.rows() != A.cols());
    (void)eigen::qr_factorise_givens(A);
}

PROBE(C01_C33_square_z)
{
    t_square<cplx>();
}

template <typename T> static void t_square_hess()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_assume(A.rows() < 16 && A.cols() < 16);
    vf_assume(A.rows() != A.cols());
    vf_throws_iff("square", true);
    (void)eigen::hessenberg(A);
}

PROBE(C01_C33_square_hess_z)
{
    t_square_hess<cplx>();
}

template <typename T> static void t_square_eig()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_assume(A.rows() != A.cols());
    vf_throws_iff("square", true);
    (void)eigen::eigenvectorUpper(A);
}

PROBE(C01_C33_square_eig_z)
{
    t_square_eig<cplx>();
}

template <typename T> static void t_square_wil()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", A.rows() != A.cols());
    (void)eigen::wilkinson_shift(A);
}

PROBE(C01_C33_square_wil_z)
{
    t_square_wil<cplx>();
}

template <typename T> static void t_wil0()
{
    MAT(T, A, "A", 0, 0);
    MAT(T, B, "A", 1, 1);
    vf::eq("empty", eigen::wilkinson_shift(A), T(0));
    vf::eq("one by one", eigen::wilkinson_shift(B), T(0));
}

PROBE(C33_C02_wil0_z)
{
    t_wil0<cplx>();
}

PROBE(C33_C02_wil0_c)
{
    t_wil0<std::complex<float>>();
}

template <typename T> static void t_hess1()
{
    MAT(T, A, "A", 1, 1);
    auto p = eigen::hessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 1);
    vf_eq_n("rows of H", p.second.rows(), 1);
    vf::eq("P", p.first(0, 0), T(1));
    vf::eq("H", p.second(0, 0), A(0, 0));
}

PROBE(C33_C02_hess1_z)
{
    t_hess1<cplx>();
}

PROBE(C33_C02_hess1_c)
{
    t_hess1<std::complex<float>>();
}

template <typename T> static void t_hess2()
{
    MAT(T, A, "A", 2, 2);
    auto p = eigen::hessenberg(A);
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("H", p.second(r, c), A(r, c));
        }
}

PROBE(C33_C02_hess2_z)
{
    t_hess2<cplx>();
}

PROBE(C33_C02_hess2_c)
{
    t_hess2<std::complex<float>>();
}

template <typename T> static void t_giv1()
{
    MAT(T, A, "A", 1, 1);
    auto p = eigen::qr_factorise_givens(A);
    vf_eq_n("rows of Q", p.first.rows(), 1);
    vf_eq_n("rows of R", p.second.rows(), 1);
    vf::eq("Q", p.first(0, 0), T(1));
    vf::eq("R", p.second(0, 0), A(0, 0));
}

PROBE(C33_C02_giv1_z)
{
    t_giv1<cplx>();
}

PROBE(C33_C02_giv1_c)
{
    t_giv1<std::complex<float>>();
}

template <typename T> static void t_giv2()
{
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(1, 0)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::qr_factorise_givens(A);
    vf::eq("zero below the diagonal", p.second(1, 0), T(0));
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("product", mul2(p.first, p.second, r, c), A(r, c));
}

PROBE(C33_C02_giv2_z)
{
    t_giv2<cplx>();
}

template <typename T> static void t_giv2_unit()
{
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(1, 0)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::qr_factorise_givens(A);
    auto &Q = p.first;
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("unitary", Q(r, 0) * std::conj(Q(c, 0)) + Q(r, 1) * std::conj(Q(c, 1)), T(r == c ? 1 : 0));
}

PROBE(C33_C02_giv2_unit_z)
{
    t_giv2_unit<cplx>();
}

template <typename T> static void t_giv_shape()
{
    auto n = vf_n("n");
    vf_assume(n > 0);
    MAT(T, A, "A", n, n);
    auto p = eigen::qr_factorise_givens(A);
    vf_eq_n("rows of Q", p.first.rows(), n);
    vf_eq_n("columns of Q", p.first.cols(), n);
    vf_eq_n("rows of R", p.second.rows(), n);
    vf_eq_n("columns of R", p.second.cols(), n);
}

PROBE(C33_C02_giv_shape_z)
{
    t_giv_shape<cplx>();
}

template <typename T> static void t_eig1()
{
    MAT(T, A, "A", 1, 1);
    auto p = eigen::eigenvectorUpper(A);
    vf_eq_n("rows", p.first.rows(), 1);
    vf_eq_n("columns", p.first.cols(), 1);
    vf::eq("vector", p.first(0, 0), T(1));
    vf_true("complete", p.second);
}

PROBE(C33_C02_eig1_z)
{
    t_eig1<cplx>();
}

PROBE(C33_C02_eig1_c)
{
    t_eig1<std::complex<float>>();
}

template <typename T> static void t_eig2()
{
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(0, 0) - A(1, 1)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_eq_n("rows", E.rows(), 2);
    vf_eq_n("columns", E.cols(), 2);
    vf_true("complete", p.second);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("second eigenvector", A(0, 0) * E(0, 1) + A(0, 1) * E(1, 1), A(1, 1) * E(0, 1));
}

PROBE(C33_C02_eig2_z)
{
    t_eig2<cplx>();
}

template <typename T> static void t_eig2_rep()
{
    MAT(T, A, "A", 2, 2);
    vf_assume(std::abs(A(0, 0) - A(1, 1)) < std::numeric_limits<double>::epsilon());
    vf_assume(std::abs(A(0, 1)) > std::numeric_limits<double>::epsilon());
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("incomplete", !p.second);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("no second vector", E(0, 1), T(0));
    vf::eq("no second vector below", E(1, 1), T(0));
}

PROBE(C33_C02_eig2_rep_z)
{
    t_eig2_rep<cplx>();
}

template <typename T> static void t_eig3()
{
    MAT(T, A, "A", 3, 3);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_eq_n("rows", E.rows(), 3);
    vf_eq_n("columns", E.cols(), 3);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("zero below the diagonal", E(2, 0), T(0));
    vf::eq("zero below the diagonal", E(2, 1), T(0));
    vf::eq("first vector", E(0, 0), T(1));
}

PROBE(C33_C02_eig3_z)
{
    t_eig3<cplx>();
}

template <typename T> static void t_eig_shape_slow()
{
    auto n = vf_n("n");
    vf_assume(n > 0 && n < 1000000);
    MAT(T, A, "A", n, n);
    auto p = eigen::eigenvectorUpper(A);
    vf_eq_n("rows", p.first.rows(), n);
    vf_eq_n("columns", p.first.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n && j < i);
    vf::eq("zero below the diagonal", p.first(i, j), T(0));
}

PROBE(C33_C02_eig_shape_slow_z)
{
    t_eig_shape_slow<cplx>();
}

template <typename T> static void t_hess3()
{
    MAT(T, A, "A", 3, 3);
    auto p = eigen::hessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 3);
    vf_eq_n("columns of P", p.first.cols(), 3);
    vf_eq_n("rows of H", p.second.rows(), 3);
    vf_eq_n("columns of H", p.second.cols(), 3);
    vf::eq("P leaves the first coordinate", p.first(0, 0), T(1));
    vf::eq("P leaves the first coordinate", p.first(0, 1), T(0));
    vf::eq("P leaves the first coordinate", p.first(0, 2), T(0));
    vf::eq("P leaves the first coordinate", p.first(1, 0), T(0));
    vf::eq("P leaves the first coordinate", p.first(2, 0), T(0));
    vf::eq("corner", p.second(0, 0), A(0, 0));
}

PROBE(C33_C02_hess3_z)
{
    t_hess3<cplx>();
}

template <typename T> static void t_hess3_id()
{
    typedef std::complex<T> Z;
    Matrix<Z> A(3, 3);
    for (int r = 0; r < 3; ++r)
        for (int c = 1; c < 3; ++c)
            A(r, c) = Z(vf::in<T>::at("A", 3 * r + c), 0);
    A(0, 0) = Z(vf::in<T>::at("A", 0), 0);
    A(1, 0) = Z(3, 0);
    A(2, 0) = Z(4, 0);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), Z(0));
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            Z u = 0, l = 0, m = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, Z(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }
}

PROBE(C33_C02_hess3_id_d)
{
    t_hess3_id<double>();
}

template <typename T> static void t_hess3_phase()
{
    typedef std::complex<T> Z;
    Matrix<Z> A(3, 3);
    for (int r = 0; r < 3; ++r)
        for (int c = 1; c < 3; ++c)
            A(r, c) = Z(vf::in<T>::at("A", 3 * r + c), vf::in<T>::at("B", 3 * r + c));
    A(0, 0) = Z(vf::in<T>::at("A", 0), 0);
    A(1, 0) = Z(0, 3);
    A(2, 0) = Z(4, 0);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), Z(0));
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            Z u = 0, l = 0, m = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, Z(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }
}

PROBE(C33_C02_hess3_phase_d)
{
    t_hess3_phase<double>();
}

template <typename T> static void t_hess4()
{
    // two columns to clear
    MAT(T, A, "A", 4, 4);
    A(1, 0) = A(2, 0) = T(0);
    A(3, 0) = T(5);
    A(2, 3) = T(0, 3);
    A(1, 3) = T(4);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), T(0));
    vf::eq("zero below the subdiagonal", p.second(3, 0), T(0));
    vf::eq("zero below the subdiagonal", p.second(3, 1), T(0));
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c) {
            T u = 0, l = 0, m = 0;
            for (int k = 0; k < 4; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }
}

PROBE(C33_C02_hess4_z)
{
    t_hess4<cplx>();
}

template <typename T> static void t_giv4()
{
    // the columns to clear have lengths five and one
    MAT(T, A, "A", 4, 4);
    A(2, 0) = A(3, 0) = A(3, 1) = T(0);
    A(0, 0) = T(3);
    A(1, 0) = T(0, 4);
    A(2, 1) = A(3, 2) = T(0);
    auto p = eigen::qr_factorise_givens(A);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c) {
            T u = 0, l = 0;
            for (int k = 0; k < 4; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("product", l, A(r, c));
            if (r > c)
                vf::eq("zero below the diagonal", p.second(r, c), T(0));
        }
}

PROBE(C33_C02_giv4_z)
{
    t_giv4<cplx>();
}

template <typename T> static void t_giv3_twice()
{
    // the second rotation meets what the first one left
    Matrix<T> A(3, 3);
    MAT(T, X, "X", 3, 1);
    A(0, 0) = T(3);
    A(1, 0) = T(0, 4);
    A(0, 1) = T(0);
    A(1, 1) = T(5);
    A(2, 1) = T(4);
    for (int r = 0; r < 3; ++r)
        A(r, 2) = X[r];
    auto p = eigen::qr_factorise_givens(A);
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            T u = 0, l = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("product", l, A(r, c));
            if (r > c)
                vf::eq("zero below the diagonal", p.second(r, c), T(0));
        }
}

PROBE(C33_C02_giv3_twice_z)
{
    t_giv3_twice<cplx>();
}

template <typename T> static void t_eig4_vectors()
{
    MAT(T, A, "A", 4, 4);
    A(0, 0) = T(1);
    A(1, 1) = T(3);
    A(2, 2) = T(0, 2);
    A(3, 3) = T(-1);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("complete", p.second);
    for (int k = 0; k < 4; ++k)
        for (int r = 0; r < 4; ++r) {
            T s = 0;
            for (int c = r; c < 4; ++c)
                s += A(r, c) * E(c, k);
            vf::eq("eigenvector", s, A(k, k) * E(r, k));
        }
}

PROBE(C33_C02_eig4_vectors_z)
{
    t_eig4_vectors<cplx>();
}

template <typename T> static void t_eig3_vectors()
{
    MAT(T, A, "A", 3, 3);
    A(0, 0) = T(1);
    A(1, 1) = T(3);
    A(2, 2) = T(0, 2);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("complete", p.second);
    for (int k = 0; k < 3; ++k)
        for (int r = 0; r < 3; ++r) {
            T s = 0;
            for (int c = r; c < 3; ++c)
                s += A(r, c) * E(c, k);
            vf::eq("eigenvector", s, A(k, k) * E(r, k));
        }
    vf_true("third vector", E(2, 2) != T(0));
    vf_true("second vector", E(1, 1) != T(0));
}

PROBE(C33_C02_eig3_vectors_z)
{
    t_eig3_vectors<cplx>();
}

template <typename T> static void t_eig3_repeated()
{
    // the second of two equal eigenvalues has no vector of its own, the third has one
    MAT(T, A, "A", 3, 3);
    A(0, 0) = T(1);
    A(1, 1) = T(1);
    A(2, 2) = T(2);
    vf_assume(std::abs(A(0, 1)) > std::numeric_limits<double>::epsilon());
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("incomplete", !p.second);
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("no second vector", E(0, 1), T(0));
    vf::eq("no second vector", E(1, 1), T(0));
    for (int r = 0; r < 3; ++r) {
        T s = 0;
        for (int c = r; c < 3; ++c)
            s += A(r, c) * E(c, 2);
        vf::eq("third eigenvector", s, A(2, 2) * E(r, 2));
    }
}

PROBE(C33_C02_eig3_repeated_z)
{
    t_eig3_repeated<cplx>();
}

template <typename T> static void t_qrh1()
{
    MAT(T, A, "A", 1, 1);
    auto p = eigen::QRHessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 1);
    vf_eq_n("columns of P", p.first.cols(), 1);
    vf_eq_n("rows of T", p.second.rows(), 1);
    vf_eq_n("columns of T", p.second.cols(), 1);
    vf::eq("P", p.first(0, 0), T(1));
    vf::eq("T", p.second(0, 0), A(0, 0));
}

PROBE(C33_C02_qrh1_z)
{
    t_qrh1<cplx>();
}

template <typename T> static void t_qrh2_upper()
{
    // an upper triangular matrix is its own Schur form
    MAT(T, A, "A", 2, 2);
    A(1, 0) = T(0);
    auto p = eigen::QRHessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 2);
    vf_eq_n("columns of T", p.second.cols(), 2);
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("T", p.second(r, c), A(r, c));
        }
}

PROBE(C33_C02_qrh2_upper_z)
{
    t_qrh2_upper<cplx>();
}

template <typename T> static void t_qrh3_upper()
{
    MAT(T, A, "A", 3, 3);
    A(1, 0) = T(0);
    A(2, 0) = T(0);
    A(2, 1) = T(0);
    auto p = eigen::QRHessenberg(A);
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("T", p.second(r, c), A(r, c));
        }
}

PROBE(C33_C02_qrh3_upper_z)
{
    t_qrh3_upper<cplx>();
}

template <typename T> static void t_qrh_square()
{
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 16 && m < 16 && n != m);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", true);
    (void)eigen::QRHessenberg(A);
}

PROBE(C01_C33_qrh_square_z)
{
    t_qrh_square<cplx>();
}
