// Structure of the Hessenberg, Givens and triangular eigenvector computations (C33).
#include "vfm.hpp"
#include "malg/eigen.hpp"
namespace eigen = malg::eigen;
template <typename T> static T mul2(const Matrix<T> &a, const Matrix<T> &b, size_t r, size_t c)
{
    return a(r, 0) * b(0, c) + a(r, 1) * b(1, c);
}

//// square C01_C33 z
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", A.rows() != A.cols());
    (void)eigen::qr_factorise_givens(A);

//// square_hess C01_C33 z
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_assume(A.rows() < 16 && A.cols() < 16);
    vf_assume(A.rows() != A.cols());
    vf_throws_iff("square", true);
    (void)eigen::hessenberg(A);

//// square_eig C01_C33 z
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_assume(A.rows() != A.cols());
    vf_throws_iff("square", true);
    (void)eigen::eigenvectorUpper(A);

//// square_wil C01_C33 z
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 100000 && m < 100000);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", A.rows() != A.cols());
    (void)eigen::wilkinson_shift(A);

//// wil0 C33_C02 z c
    MAT(T, A, "A", 0, 0);
    MAT(T, B, "A", 1, 1);
    vf::eq("empty", eigen::wilkinson_shift(A), T(0));
    vf::eq("one by one", eigen::wilkinson_shift(B), T(0));

//// hess1 C33_C02 z c
    MAT(T, A, "A", 1, 1);
    auto p = eigen::hessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 1);
    vf_eq_n("rows of H", p.second.rows(), 1);
    vf::eq("P", p.first(0, 0), T(1));
    vf::eq("H", p.second(0, 0), A(0, 0));

//// hess2 C33_C02 z c
    MAT(T, A, "A", 2, 2);
    auto p = eigen::hessenberg(A);
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("H", p.second(r, c), A(r, c));
        }

//// giv1 C33_C02 z c
    MAT(T, A, "A", 1, 1);
    auto p = eigen::qr_factorise_givens(A);
    vf_eq_n("rows of Q", p.first.rows(), 1);
    vf_eq_n("rows of R", p.second.rows(), 1);
    vf::eq("Q", p.first(0, 0), T(1));
    vf::eq("R", p.second(0, 0), A(0, 0));

//// giv2 C33_C02 z
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(1, 0)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::qr_factorise_givens(A);
    vf::eq("zero below the diagonal", p.second(1, 0), T(0));
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("product", mul2(p.first, p.second, r, c), A(r, c));

//// giv2_unit C33_C02 z
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(1, 0)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::qr_factorise_givens(A);
    auto &Q = p.first;
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("unitary", Q(r, 0) * std::conj(Q(c, 0)) + Q(r, 1) * std::conj(Q(c, 1)), T(r == c ? 1 : 0));

//// giv_shape C33_C02 z
    auto n = vf_n("n");
    vf_assume(n > 0);
    MAT(T, A, "A", n, n);
    auto p = eigen::qr_factorise_givens(A);
    vf_eq_n("rows of Q", p.first.rows(), n);
    vf_eq_n("columns of Q", p.first.cols(), n);
    vf_eq_n("rows of R", p.second.rows(), n);
    vf_eq_n("columns of R", p.second.cols(), n);

//// eig1 C33_C02 z c
    MAT(T, A, "A", 1, 1);
    auto p = eigen::eigenvectorUpper(A);
    vf_eq_n("rows", p.first.rows(), 1);
    vf_eq_n("columns", p.first.cols(), 1);
    vf::eq("vector", p.first(0, 0), T(1));
    vf_true("complete", p.second);

//// eig2 C33_C02 z
    MAT(T, A, "A", 2, 2);
    vf_assume(!(std::abs(A(0, 0) - A(1, 1)) < std::numeric_limits<double>::epsilon()));
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_eq_n("rows", E.rows(), 2);
    vf_eq_n("columns", E.cols(), 2);
    vf_true("complete", p.second);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("second eigenvector", A(0, 0) * E(0, 1) + A(0, 1) * E(1, 1), A(1, 1) * E(0, 1));

//// eig2_rep C33_C02 z
    MAT(T, A, "A", 2, 2);
    vf_assume(std::abs(A(0, 0) - A(1, 1)) < std::numeric_limits<double>::epsilon());
    vf_assume(std::abs(A(0, 1)) > std::numeric_limits<double>::epsilon());
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("incomplete", !p.second);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("no second vector", E(0, 1), T(0));
    vf::eq("no second vector below", E(1, 1), T(0));

//// eig3 C33_C02 z
    MAT(T, A, "A", 3, 3);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_eq_n("rows", E.rows(), 3);
    vf_eq_n("columns", E.cols(), 3);
    vf::eq("zero below the diagonal", E(1, 0), T(0));
    vf::eq("zero below the diagonal", E(2, 0), T(0));
    vf::eq("zero below the diagonal", E(2, 1), T(0));
    vf::eq("first vector", E(0, 0), T(1));

//// eig_shape_slow C33_C02 z
    auto n = vf_n("n");
    vf_assume(n > 0 && n < 1000000);
    MAT(T, A, "A", n, n);
    auto p = eigen::eigenvectorUpper(A);
    vf_eq_n("rows", p.first.rows(), n);
    vf_eq_n("columns", p.first.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n && j < i);
    vf::eq("zero below the diagonal", p.first(i, j), T(0));

//// hess3 C33_C02 z
    MAT(T, A, "A", 3, 3);
    auto p = eigen::hessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 3);
    vf_eq_n("columns of P", p.first.cols(), 3);
    vf_eq_n("rows of H", p.second.rows(), 3);
    vf_eq_n("columns of H", p.second.cols(), 3);
    vf::eq("P leaves the first coordinate", p.first(0, 0), T(1));
    vf::eq("P leaves the first coordinate", p.first(0, 1), T(0));
    vf::eq("P leaves the first coordinate", p.first(0, 2), T(0));
    vf::eq("P leaves the first coordinate", p.first(1, 0), T(0));
    vf::eq("P leaves the first coordinate", p.first(2, 0), T(0));
    vf::eq("corner", p.second(0, 0), A(0, 0));

//// hess3_id C33_C02 d
    typedef std::complex<T> Z;
    Matrix<Z> A(3, 3);
    for (int r = 0; r < 3; ++r)
        for (int c = 1; c < 3; ++c)
            A(r, c) = Z(vf::in<T>::at("A", 3 * r + c), 0);
    A(0, 0) = Z(vf::in<T>::at("A", 0), 0);
    A(1, 0) = Z(3, 0);
    A(2, 0) = Z(4, 0);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), Z(0));
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            Z u = 0, l = 0, m = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, Z(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }

//// hess3_phase C33_C02 d
    typedef std::complex<T> Z;
    Matrix<Z> A(3, 3);
    for (int r = 0; r < 3; ++r)
        for (int c = 1; c < 3; ++c)
            A(r, c) = Z(vf::in<T>::at("A", 3 * r + c), vf::in<T>::at("B", 3 * r + c));
    A(0, 0) = Z(vf::in<T>::at("A", 0), 0);
    A(1, 0) = Z(0, 3);
    A(2, 0) = Z(4, 0);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), Z(0));
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            Z u = 0, l = 0, m = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, Z(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }

//// hess4 C33_C02 z
    // two columns to clear
    MAT(T, A, "A", 4, 4);
    A(1, 0) = A(2, 0) = T(0);
    A(3, 0) = T(5);
    A(2, 3) = T(0, 3);
    A(1, 3) = T(4);
    auto p = eigen::hessenberg(A);
    vf::eq("zero below the subdiagonal", p.second(2, 0), T(0));
    vf::eq("zero below the subdiagonal", p.second(3, 0), T(0));
    vf::eq("zero below the subdiagonal", p.second(3, 1), T(0));
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c) {
            T u = 0, l = 0, m = 0;
            for (int k = 0; k < 4; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
                m += A(r, k) * p.first(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("similar", l, m);
        }

//// giv4 C33_C02 z
    // the columns to clear have lengths five and one
    MAT(T, A, "A", 4, 4);
    A(2, 0) = A(3, 0) = A(3, 1) = T(0);
    A(0, 0) = T(3);
    A(1, 0) = T(0, 4);
    A(2, 1) = A(3, 2) = T(0);
    auto p = eigen::qr_factorise_givens(A);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c) {
            T u = 0, l = 0;
            for (int k = 0; k < 4; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("product", l, A(r, c));
            if (r > c)
                vf::eq("zero below the diagonal", p.second(r, c), T(0));
        }

//// giv3_twice C33_C02 z
    // the second rotation meets what the first one left
    Matrix<T> A(3, 3);
    MAT(T, X, "X", 3, 1);
    A(0, 0) = T(3);
    A(1, 0) = T(0, 4);
    A(0, 1) = T(0);
    A(1, 1) = T(5);
    A(2, 1) = T(4);
    for (int r = 0; r < 3; ++r)
        A(r, 2) = X[r];
    auto p = eigen::qr_factorise_givens(A);
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            T u = 0, l = 0;
            for (int k = 0; k < 3; ++k) {
                u += p.first(r, k) * std::conj(p.first(c, k));
                l += p.first(r, k) * p.second(k, c);
            }
            vf::eq("unitary", u, T(r == c ? 1 : 0));
            vf::eq("product", l, A(r, c));
            if (r > c)
                vf::eq("zero below the diagonal", p.second(r, c), T(0));
        }

//// eig4_vectors C33_C02 z
    MAT(T, A, "A", 4, 4);
    A(0, 0) = T(1);
    A(1, 1) = T(3);
    A(2, 2) = T(0, 2);
    A(3, 3) = T(-1);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("complete", p.second);
    for (int k = 0; k < 4; ++k)
        for (int r = 0; r < 4; ++r) {
            T s = 0;
            for (int c = r; c < 4; ++c)
                s += A(r, c) * E(c, k);
            vf::eq("eigenvector", s, A(k, k) * E(r, k));
        }

//// eig3_vectors C33_C02 z
    MAT(T, A, "A", 3, 3);
    A(0, 0) = T(1);
    A(1, 1) = T(3);
    A(2, 2) = T(0, 2);
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("complete", p.second);
    for (int k = 0; k < 3; ++k)
        for (int r = 0; r < 3; ++r) {
            T s = 0;
            for (int c = r; c < 3; ++c)
                s += A(r, c) * E(c, k);
            vf::eq("eigenvector", s, A(k, k) * E(r, k));
        }
    vf_true("third vector", E(2, 2) != T(0));
    vf_true("second vector", E(1, 1) != T(0));

//// eig3_repeated C33_C02 z
    // the second of two equal eigenvalues has no vector of its own, the third has one
    MAT(T, A, "A", 3, 3);
    A(0, 0) = T(1);
    A(1, 1) = T(1);
    A(2, 2) = T(2);
    vf_assume(std::abs(A(0, 1)) > std::numeric_limits<double>::epsilon());
    auto p = eigen::eigenvectorUpper(A);
    auto &E = p.first;
    vf_true("incomplete", !p.second);
    vf::eq("first vector", E(0, 0), T(1));
    vf::eq("no second vector", E(0, 1), T(0));
    vf::eq("no second vector", E(1, 1), T(0));
    for (int r = 0; r < 3; ++r) {
        T s = 0;
        for (int c = r; c < 3; ++c)
            s += A(r, c) * E(c, 2);
        vf::eq("third eigenvector", s, A(2, 2) * E(r, 2));
    }

//// qrh1 C33_C02 z
    MAT(T, A, "A", 1, 1);
    auto p = eigen::QRHessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 1);
    vf_eq_n("columns of P", p.first.cols(), 1);
    vf_eq_n("rows of T", p.second.rows(), 1);
    vf_eq_n("columns of T", p.second.cols(), 1);
    vf::eq("P", p.first(0, 0), T(1));
    vf::eq("T", p.second(0, 0), A(0, 0));

//// qrh2_upper C33_C02 z
    // an upper triangular matrix is its own Schur form
    MAT(T, A, "A", 2, 2);
    A(1, 0) = T(0);
    auto p = eigen::QRHessenberg(A);
    vf_eq_n("rows of P", p.first.rows(), 2);
    vf_eq_n("columns of T", p.second.cols(), 2);
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("T", p.second(r, c), A(r, c));
        }

//// qrh3_upper C33_C02 z
    MAT(T, A, "A", 3, 3);
    A(1, 0) = T(0);
    A(2, 0) = T(0);
    A(2, 1) = T(0);
    auto p = eigen::QRHessenberg(A);
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            vf::eq("P", p.first(r, c), T(r == c ? 1 : 0));
            vf::eq("T", p.second(r, c), A(r, c));
        }

//// qrh_square C01_C33 z
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0 && n < 16 && m < 16 && n != m);
    MAT(T, A, "A", n, m);
    vf_throws_iff("square", true);
    (void)eigen::QRHessenberg(A);
