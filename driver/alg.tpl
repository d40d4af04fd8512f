// Determinant (C21), adjoint, inverse, quotient, solve (C22), LU (C23), powers (C04), QR (C33).
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include "malg/feq.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
namespace feq = malg::feq;
// the signed sum over permutations, by recursion over the columns left
template <typename T, typename M> static T minor1(const M &A, int r, const int *c) { return A(r, c[0]); }
template <typename T, typename M> static T minor2(const M &A, int r, const int *c)
{
    return A(r, c[0]) * A(r + 1, c[1]) - A(r, c[1]) * A(r + 1, c[0]);
}
template <typename T, typename M> static T minor3(const M &A, int r, const int *c)
{
    int a[2] = { c[1], c[2] }, b[2] = { c[0], c[2] }, d[2] = { c[0], c[1] };
    return A(r, c[0]) * minor2<T>(A, r + 1, a) - A(r, c[1]) * minor2<T>(A, r + 1, b) + A(r, c[2]) * minor2<T>(A, r + 1, d);
}
template <typename T, typename M> static T minor4(const M &A, int r, const int *c)
{
    int a[3] = { c[1], c[2], c[3] }, b[3] = { c[0], c[2], c[3] }, d[3] = { c[0], c[1], c[3] }, e[3] = { c[0], c[1], c[2] };
    return A(r, c[0]) * minor3<T>(A, r + 1, a) - A(r, c[1]) * minor3<T>(A, r + 1, b) + A(r, c[2]) * minor3<T>(A, r + 1, d) - A(r, c[3]) * minor3<T>(A, r + 1, e);
}
template <typename T, typename M> static T det1(const M &A) { int c[] = { 0 }; return minor1<T>(A, 0, c); }
template <typename T, typename M> static T det2(const M &A) { int c[] = { 0, 1 }; return minor2<T>(A, 0, c); }
template <typename T, typename M> static T det3(const M &A) { int c[] = { 0, 1, 2 }; return minor3<T>(A, 0, c); }
template <typename T, typename M> static T det4(const M &A) { int c[] = { 0, 1, 2, 3 }; return minor4<T>(A, 0, c); }
template <typename T> static bool usable(T x) { return !(std::abs(x) <= feq::tolerance() * std::abs(x)); }
// A without a row and a column
template <typename T> struct Without {
    const MatrixBase<T> &A;
    size_t p, q;
    T operator()(int r, int c) const { return A(r + (size_t(r) >= p), c + (size_t(c) >= q)); }
};

/// Stands for the determinant where the order is any number: a function of the order and of every element,
/// of which nothing else is used in a proof (a counterexample is decided with the real determinant).
extern "C" double vf_model_det_d(const MatrixBase<double> &A)
{
    if (A.rows() != A.cols())
        throw std::invalid_argument("not square");
    double s = 0;
    auto n = A.rows();
    for (size_t r = 0; r < n; ++r)
        for (size_t c = 0; c < n; ++c)
            s += vf_det_entry(r, c, A(r, c));
    return vf_det(n, s);
}
/// The minor of A without row p and column q.
static inline double minor_(const MatrixBase<double> &A, size_t p, size_t q)
{
    double s = 0;
    auto n = A.rows() - 1;
    for (size_t r = 0; r < n; ++r)
        for (size_t c = 0; c < n; ++c)
            s += vf_det_entry(r, c, A(r < p ? r : r + 1, c < q ? c : c + 1));
    return vf_det(n, s);
}

static inline double conj_(double x) { return x; }
template <typename T> static inline std::complex<T> conj_(const std::complex<T> &x) { return std::conj(x); }

//// det1 C21_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 1 && A.cols() == 1);
    vf::eq("permutation sum", linalg::determinant(A), det1<T>(A));

//// det2 C21_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    vf::eq("permutation sum", linalg::determinant(A), det2<T>(A));

//// det3 C21_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    vf::eq("permutation sum", linalg::determinant(A), det3<T>(A));

//// det4 C21_C02_C06 d f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 4 && A.cols() == 4);
    vf::eq("permutation sum", linalg::determinant(A), det4<T>(A));

//// det4z C21_C02_C06 z
    MAT(T, A, "A", 4, 4);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c)
            if (r != 0 && c != 1 && r != c)
                A(r, c) = T(A(r, c).real(), 0);
    vf::eq("permutation sum", linalg::determinant(A), det4<T>(A));

//// det_any C21_C02 d
    // of any order: searched for counterexamples
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    vf_assume(feq::tolerance() < 1);
    vf::eq("permutation sum", linalg::determinant(A), vf_model_det_d(A));

//// det_nonsquare C21_C01_C02 d z i
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() != A.cols());
    (void)utility::is_square(A);
    vf_assume(A.rows() != A.cols());
    (void)linalg::determinant(A);

//// det_view C21_C13_C02 d i
    MAT(T, M, "M", 4, 5);
    auto v = utility::view(M, 1, 4, 1, 4);
    vf::eq("determinant of a view", linalg::determinant(v), det3<T>(v));
    CofactorView w(&v, 1, 2);
    vf::eq("determinant of a minor", linalg::determinant(w), v(0, 0) * v(2, 1) - v(0, 1) * v(2, 0));

//// det5_upper C21_C02 d z f
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    T want = T(1);
    for (int r = 0; r < 5; ++r) {
        vf_assume(!(A(r, r) == T(0)));
        want *= A(r, r);
        for (int c = 0; c < r; ++c)
            A(r, c) = T(0);
    }
    vf::eq("product of the diagonal", linalg::determinant(A), want);

//// det5_lower C21_C02 d f
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    T want = T(1);
    for (int r = 0; r < 5; ++r) {
        vf_assume(!(A(r, r) == T(0)));
        want *= A(r, r);
        for (int c = r + 1; c < 5; ++c)
            A(r, c) = T(0);
    }
    vf::eq("product of the diagonal", linalg::determinant(A), want);

//// det6_border C21_C02 d
    // whatever borders a block with the pivots one
    MAT(T, A, "A", 6, 6);
    vf_assume(feq::tolerance() < 1);
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c)
            A(r, c) = T(1 + (r < c ? r : c));
    T last = A(5, 5) - A(5, 0) * A(0, 5);
    for (int k = 1; k < 5; ++k)
        last -= (A(5, k) - A(5, k - 1)) * (A(k, 5) - A(k - 1, 5));
    vf_assume(last != T(0));
    vf::eq("bordered", linalg::determinant(A), last);

//// det5_far C21_C02 d
    // the pivots are found two and three rows below
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    T p = 1;
    for (int r = 0; r < 5; ++r) {
        const int at[] = { 2, 4, 0, 3, 1 };
        for (int c = 0; c < 5; ++c)
            if (c == at[r]) {
                vf_assume(!(A(r, c) == T(0)));
                p *= A(r, c);
            } else {
                A(r, c) = T(0);
            }
    }
    vf::eq("permuted diagonal", linalg::determinant(A), p);

//// det5_swap C21_C02 d f
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    // one row exchange away from triangular
    T d[5];
    for (int r = 0; r < 5; ++r) {
        d[r] = A(r, r);
        vf_assume(!(d[r] == T(0)));
        for (int c = 0; c < r; ++c)
            A(r, c) = T(0);
    }
    for (int c = 0; c < 5; ++c) {
        T x = A(1, c);
        A(1, c) = A(3, c);
        A(3, c) = x;
    }
    vf::eq("a row exchange changes the sign", linalg::determinant(A), -(d[0] * d[1] * d[2] * d[3] * d[4]));

//// det5_cycle C21_C02 d
    Matrix<T> A(5, 5, T(0));
    vf_assume(feq::tolerance() < 1);
    auto a = vf_r("a"), b = vf_r("b"), c = vf_r("c"), d = vf_r("d"), e = vf_r("e");
    vf_assume(!(a == 0) && !(b == 0) && !(c == 0) && !(d == 0) && !(e == 0));
    A(0, 1) = a;
    A(1, 2) = b;
    A(2, 3) = c;
    A(3, 4) = d;
    A(4, 0) = e;
    vf::eq("cycle of five", linalg::determinant(A), a * b * c * d * e);
    Matrix<T> B(6, 6, T(0));
    B(0, 1) = a;
    B(1, 2) = b;
    B(2, 0) = c;
    B(3, 4) = d;
    B(4, 5) = e;
    B(5, 3) = a;
    vf::eq("two cycles of three", linalg::determinant(B), a * a * b * c * d * e);

//// det5_block C21_C02 d
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    // two by two, and a diagonal
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c)
            if (r != c && (r > 1 || c > 1))
                A(r, c) = T(0);
    for (int r = 2; r < 5; ++r)
        vf_assume(!(A(r, r) == T(0)));
    vf_assume(!(A(0, 0) == T(0)));
    T m = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    vf_assume(!(m == T(0)));
    vf::eq("product of the blocks", linalg::determinant(A), m * A(2, 2) * A(3, 3) * A(4, 4));

//// det5_block_end C21_C02 d
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c)
            if (r != c && r < 3)
                A(r, c) = T(0);
    for (int r = 0; r < 4; ++r)
        vf_assume(!(A(r, r) == T(0)));
    T m = A(3, 3) * A(4, 4) - A(3, 4) * A(4, 3);
    vf_assume(!(m == T(0)));
    vf::eq("product of the blocks", linalg::determinant(A), m * A(2, 2) * A(1, 1) * A(0, 0));

//// det5_pivot_last C21_C02 d
    // the only usable pivot of the first column is in the last row
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    T d[5];
    for (int r = 0; r < 5; ++r) {
        d[r] = A(r, r);
        vf_assume(!(d[r] == T(0)));
        for (int c = 0; c < 5; ++c)
            if (r != c)
                A(r, c) = T(0);
    }
    A(0, 0) = T(0);
    A(4, 4) = T(0);
    A(0, 4) = d[4];
    A(4, 0) = d[0];
    vf::eq("corner exchange", linalg::determinant(A), -(d[0] * d[1] * d[2] * d[3] * d[4]));

//// det5_singular C21_C02 d f
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    for (int r = 0; r < 5; ++r)
        A(r, 0) = T(0);
    vf::eq("zero column", linalg::determinant(A), T(0));
    MAT(T, B, "B", 5, 5);
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c)
            if (r > c || (r == 4 && c == 4))
                B(r, c) = T(0);
    for (int r = 0; r < 4; ++r)
        vf_assume(!(B(r, r) == T(0)));
    vf::eq("zero row", linalg::determinant(B), T(0));

//// det5_arrow C21_C02 d f
    // last row, last column and the diagonal
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c)
            if (r != c)
                A(r, c) = T(0);
    for (int r = 0; r < 4; ++r)
        vf_assume(!(A(r, r) == T(0)));
    T p = A(0, 0) * A(1, 1) * A(2, 2) * A(3, 3), d = p * A(4, 4);
    for (int r = 0; r < 4; ++r)
        d -= p / A(r, r) * A(r, 4) * A(4, r);
    vf_assume(!(d == T(0)));
    vf::eq("arrow", linalg::determinant(A), d);

//// detn_zero C21_C02 d f
    auto n = vf_n("n");
    vf_assume(n > 4);
    Matrix<T> A(n, n);
    vf_assume(feq::tolerance() >= 0);
    vf::eq("a zero matrix has determinant zero", linalg::determinant(A), T(0));

//// detn_column C21_C02 d
    auto &A = ABS(T, "A");
    auto n = vf_n("n");
    vf_assume(n > 4);
    MAT(T, M, "M", n, n);
    for (size_t r = 0; r < n; ++r)
        M(r, 0) = T(0);
    vf::eq("a zero first column gives zero", linalg::determinant(M), T(0));

//// detn_safe C21_C02_C06 d z
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    (void)linalg::determinant(A);

//// det5_int C21 i
    Matrix<T> A(5, 5, T(0));
    for (int r = 0; r < 5; ++r)
        A(r, r) = 1;
    A(0, 0) = 2;
    A(1, 0) = 3;
    A(0, 1) = 1;
    A(1, 1) = 4;
    vf::eq("elimination of integers", linalg::determinant(A), 5);

//// adj1 C22_C02 d z i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 1 && A.cols() == 1);
    auto J = linalg::adjoint(A);
    vf_eq_n("rows", J.rows(), 1);
    vf_eq_n("columns", J.cols(), 1);
    vf::eq("element", J(0, 0), T(1));

//// adj2 C22_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    auto J = linalg::adjoint(A);
    vf_eq_n("rows", J.rows(), 2);
    vf_eq_n("columns", J.cols(), 2);
    vf::eq("element 0 0", J(0, 0), A(1, 1));
    vf::eq("element 0 1", J(0, 1), -A(0, 1));
    vf::eq("element 1 0", J(1, 0), -A(1, 0));
    vf::eq("element 1 1", J(1, 1), A(0, 0));

//// adj3 C22_C14_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    auto J = linalg::adjoint(A);
    vf_eq_n("rows", J.rows(), 3);
    vf_eq_n("columns", J.cols(), 3);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            Without<T> m = { A, size_t(i), size_t(j) };
            T d = det2<T>(m);
            vf::eq("signed minor", J(j, i), (i + j) % 2 ? -d : d);
        }

//// adj4 C22_C02 d i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 4 && A.cols() == 4);
    auto J = linalg::adjoint(A);
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j) {
            Without<T> m = { A, size_t(i), size_t(j) };
            T d = det3<T>(m);
            vf::eq("signed minor", J(j, i), (i + j) % 2 ? -d : d);
        }

//// adj5 C22_C02 d
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 5 && A.cols() == 5);
    auto J = linalg::adjoint(A);
    for (int i = 0; i < 5; i += 2)
        for (int j = 1; j < 5; j += 3) {
            Without<T> m = { A, size_t(i), size_t(j) };
            T d = det4<T>(m);
            vf::eq("signed minor", J(j, i), (i + j) % 2 ? -d : d);
        }

//// adj_any C22_C02_C06 d
    auto &A = ABS(T, "A");
    vf_opaque_det();
    vf_assume(A.rows() == A.cols() && A.rows() >= 2);
    auto J = linalg::adjoint(A);
    auto n = A.rows();
    vf_eq_n("rows", J.rows(), n);
    vf_eq_n("columns", J.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    auto m = minor_(A, i, j);
    vf::eq("signed minor", J(j, i), (i + j) % 2 == 0 ? m : -m);

//// inv_any C22_C02_C06 d
    auto &A = ABS(T, "A");
    vf_opaque_det();
    vf_assume(A.rows() == A.cols() && A.rows() >= 2);
    auto n = A.rows();
    T d = vf_model_det_d(A);
    vf_assume(usable(d) && !(d == T(0)));
    auto J = linalg::inverse(A);
    vf_eq_n("rows", J.rows(), n);
    vf_eq_n("columns", J.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    auto m = minor_(A, i, j);
    vf::eq("signed minor", J(j, i), ((i + j) % 2 == 0 ? m : -m) / d);

//// inv_any_singular C22_C08 d
    auto &A = ABS(T, "A");
    vf_opaque_det();
    vf_assume(A.rows() == A.cols());
    vf_assume(feq::tolerance() >= 0);
    vf_assume(vf_model_det_d(A) == T(0));
    auto R = linalg::inverse(A);
    vf_eq_n("rows of nothing", R.rows(), 0);
    vf_eq_n("columns of nothing", R.cols(), 0);

//// div_any C22_C02_C06 dd
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_opaque_det();
    auto n = B.rows();
    vf_assume(n >= 2 && B.cols() == n && A.cols() == n);
    U d = vf_model_det_d(B);
    vf_assume(usable(d) && !(d == U(0)));
    auto R = linalg::div(A, B);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < n);
    U s = 0;
    for (size_t k = 0; k < n; ++k) {
        auto m = minor_(B, j, k);
        s += A(i, k) * (m * ((j + k) % 2 == 0 ? 1 : -1) / d);
    }
    vf::eq("element", R(i, j), s);

//// solve_any C22_C02 d
    auto n = vf_n("n");
    MAT(T, A, "A", n, n);
    VEC(T, b, "b", n);
    vf_opaque_det();
    vf_assume(n >= 2);
    T d = vf_model_det_d(A);
    vf_assume(usable(d) && !(d == T(0)));
    auto x = linalg::solve(A, b);
    vf_eq_n("size", x.size(), n);
    auto j = vf_n("j");
    vf_assume(j < n);
    T s = 0;
    for (size_t k = 0; k < n; ++k) {
        auto m = minor_(A, k, j);
        s += m * ((j + k) % 2 == 0 ? 1 : -1) / d * b[k];
    }
    vf::eq("element", x[j], s);

//// adj_nonsquare C22_C01_C02 d z i
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() != A.cols());
    vf_assume(A.rows() != A.cols());
    (void)linalg::adjoint(A);

//// adj_empty C22_C01_C02 d z
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 0 && A.cols() == 0);
    auto J = linalg::adjoint(A);
    vf_eq_n("rows", J.rows(), 0);
    vf_eq_n("columns", J.cols(), 0);

//// inv_nonsquare C22_C01_C02 d z i
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() != A.cols());
    vf_assume(A.rows() != A.cols());
    (void)linalg::inverse(A);

//// inv1 C22_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 1 && A.cols() == 1);
    auto R = linalg::inverse(A);
    typedef typename decltype(R)::value_type D;
    D d = D(A(0, 0));
    vf_assume(usable(d));
    vf_eq_n("rows", R.rows(), 1);
    vf_eq_n("columns", R.cols(), 1);
    vf::eq("reciprocal", R(0, 0), D(1) / d);

//// inv2 C22_C02_C06 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    auto R = linalg::inverse(A);
    typedef typename decltype(R)::value_type D;
    D d = D(det2<T>(A));
    vf_assume(usable(d));
    vf_eq_n("rows", R.rows(), 2);
    vf_eq_n("columns", R.cols(), 2);
    vf::eq("element 0 0", R(0, 0), D(A(1, 1)) / d);
    vf::eq("element 0 1", R(0, 1), -D(A(0, 1)) / d);
    vf::eq("element 1 0", R(1, 0), -D(A(1, 0)) / d);
    vf::eq("element 1 1", R(1, 1), D(A(0, 0)) / d);

//// inv2_id C22 d
    MAT(T, A, "A", 2, 2);
    vf_assume(usable(det2<T>(A)));
    auto R = linalg::inverse(A);
    auto P = R * A;
    vf_assume(!(det2<T>(A) == T(0)));
    vf::eq("identity 0 0", P(0, 0), T(1));
    vf::eq("identity 0 1", P(0, 1), T(0));
    vf::eq("identity 1 0", P(1, 0), T(0));
    vf::eq("identity 1 1", P(1, 1), T(1));

//// inv3 C22_C02_C06 d f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    auto R = linalg::inverse(A);
    typedef typename decltype(R)::value_type D;
    D det = D(det3<T>(A));
    vf_assume(usable(det));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            Without<T> m = { A, size_t(i), size_t(j) };
            D d = D(det2<T>(m));
            vf::eq("adjoint over determinant", R(j, i), ((i + j) % 2 ? -d : d) / det);
        }

//// inv5_border C22_C02 d z
    // whatever borders a block with the pivots one
    MAT(T, A, "A", 5, 5);
    vf_assume(feq::tolerance() < 1);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c)
            A(r, c) = T(1 + (r < c ? r : c));
    T last = A(4, 4) - A(4, 0) * A(0, 4);
    for (int k = 1; k < 4; ++k)
        last -= (A(4, k) - A(4, k - 1)) * (A(k, 4) - A(k - 1, 4));
    vf_assume(last != T(0));
    vf_assume(!malg::feq::approximately_equal_to_zero(last));
    auto R = linalg::inverse(A);
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c) {
            T s = 0;
            for (int k = 0; k < 5; ++k)
                s += A(r, k) * R(k, c);
            vf::eq("inverse", s, T(r == c ? 1 : 0));
        }

//// inv_singular C22_C08 d z f i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    vf_assume(feq::tolerance() >= 0);
    vf_assume(det2<T>(A) == T(0));
    auto R = linalg::inverse(A);
    vf_eq_n("rows of nothing", R.rows(), 0);
    vf_eq_n("columns of nothing", R.cols(), 0);

//// inv_singular3 C22_C08 d i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    vf_assume(feq::tolerance() >= 0);
    vf_assume(det3<T>(A) == T(0));
    auto R = linalg::inverse(A);
    vf_eq_n("rows of nothing", R.rows(), 0);
    vf_eq_n("columns of nothing", R.cols(), 0);

//// inv_safe_slow C22_C02_C06 d
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    auto R = linalg::inverse(A);
    vf_true("a square matrix or nothing", (R.rows() == A.rows() && R.cols() == A.cols()) || R.rows() * R.cols() == 0);

//// div2 C22_C02_C06 dd zz dz
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    auto n = A.rows();
    vf_assume(A.cols() == 2 && B.rows() == 2 && B.cols() == 2);
    U d = det2<U>(B);
    vf_assume(usable(d));
    auto R = linalg::div(A, B);
    vf_eq_n("rows", R.rows(), n);
    vf_eq_n("columns", R.cols(), 2);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_assume(!(d == U(0)));
    vf::eq("element 0", R(i, 0), (A(i, 0) * B(1, 1) - A(i, 1) * B(1, 0)) / d);
    vf::eq("element 1", R(i, 1), (A(i, 1) * B(0, 0) - A(i, 0) * B(0, 1)) / d);

//// div1 C22_C02_C06 dd zz id
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    auto n = A.rows();
    vf_assume(A.cols() == 1 && B.rows() == 1 && B.cols() == 1);
    U d = B(0, 0);
    vf_assume(usable(d));
    auto R = linalg::div(A, B);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", R(i, 0), U(A(i, 0)) / d);

//// div_shape C22_C01_C02 dd
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_only_if("C01:conforming", B.rows() != B.cols() || A.cols() != B.rows() || B.rows() == 2);
    vf_assume(B.rows() <= 3);
    vf_assume(B.rows() != 2);
    vf_assume(!(B.rows() == B.cols() && A.cols() == B.rows()));
    (void)linalg::div(A, B);
    vf_true("C01:a quotient of matrices which do not conform is rejected", A.cols() == 0);

//// solve1 C22_C02 d
    MAT(T, A, "A", 1, 1);
    VEC(T, b, "b", 1);
    vf_assume(usable(A(0, 0)));
    auto x = linalg::solve(A, b);
    vf_eq_n("size", x.size(), 1);
    vf::eq("element", x[0], b[0] / A(0, 0));

//// solve2 C22_C02 d
    MAT(T, A, "A", 2, 2);
    VEC(T, b, "b", 2);
    T d = det2<T>(A);
    vf_assume(usable(d));
    auto x = linalg::solve(A, b);
    vf_eq_n("size", x.size(), 2);
    vf::eq("element 0", x[0], (A(1, 1) * b[0] - A(0, 1) * b[1]) / d);
    vf::eq("element 1", x[1], (A(0, 0) * b[1] - A(1, 0) * b[0]) / d);

//// solve_wide C22_C02 d
    MAT(T, A, "A", 1, 2);
    VEC(T, b, "b", 1);
    T d = A(0, 0) * A(0, 0) + A(0, 1) * A(0, 1);
    vf_assume(usable(d));
    auto x = linalg::solve(A, b);
    vf_eq_n("size", x.size(), 2);
    vf::eq("element 0", x[0], A(0, 0) * b[0] / d);
    vf::eq("element 1", x[1], A(0, 1) * b[0] / d);

//// lu1 C23_C02_C06 d z f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 1 && A.cols() == 1);
    auto p = linalg::lu_decomposition(A);
    vf_eq_n("rows of the lower factor", p.first.rows(), 1);
    vf_eq_n("columns of the upper factor", p.second.cols(), 1);
    vf::eq("lower factor", p.first(0, 0), A(0, 0));
    vf::eq("upper factor", p.second(0, 0), T(1));

//// lu2 C23_C02_C06 d z f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    vf_assume(!(A(0, 0) == T(0)));
    auto p = linalg::lu_decomposition(A);
    auto &L = p.first;
    auto &W = p.second;
    vf_eq_n("rows of the lower factor", L.rows(), 2);
    vf_eq_n("columns of the lower factor", L.cols(), 2);
    vf_eq_n("rows of the upper factor", W.rows(), 2);
    vf_eq_n("columns of the upper factor", W.cols(), 2);
    vf::eq("zero above the diagonal", L(0, 1), T(0));
    vf::eq("zero below the diagonal", W(1, 0), T(0));
    vf::eq("unit diagonal", W(0, 0), T(1));
    vf::eq("unit diagonal end", W(1, 1), T(1));
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("product", L(r, 0) * W(0, c) + L(r, 1) * W(1, c), A(r, c));

//// lu3 C23_C02_C06 d f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    vf_assume(!(A(0, 0) == T(0)));
    vf_assume(!(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) == T(0)));
    auto p = linalg::lu_decomposition(A);
    auto &L = p.first;
    auto &W = p.second;
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) {
            if (c > r)
                vf::eq("zero above the diagonal", L(r, c), T(0));
            if (c < r)
                vf::eq("zero below the diagonal", W(r, c), T(0));
            if (c == r)
                vf::eq("unit diagonal", W(r, c), T(1));
            vf::eq("product", L(r, 0) * W(0, c) + L(r, 1) * W(1, c) + L(r, 2) * W(2, c), A(r, c));
        }

//// lu4 C23_C02 d
    MAT(T, A, "A", 4, 4);
    vf_assume(!(A(0, 0) == T(0)));
    A(1, 0) = A(2, 0) = A(0, 3) = T(0);
    vf_assume(!(A(1, 1) == T(0)));
    vf_assume(!(A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1) == T(0)));
    auto p = linalg::lu_decomposition(A);
    auto &L = p.first;
    auto &W = p.second;
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c)
            vf::eq("product", L(r, 0) * W(0, c) + L(r, 1) * W(1, c) + L(r, 2) * W(2, c) + L(r, 3) * W(3, c), A(r, c));

//// lu6 C23_C02 d z
    // whatever borders a block with the pivots one
    MAT(T, A, "A", 6, 6);
    for (int r = 0; r < 5; ++r)
        for (int c = 0; c < 5; ++c)
            A(r, c) = T(1 + (r < c ? r : c));
    auto p = linalg::lu_decomposition(A);
    auto &L = p.first;
    auto &W = p.second;
    for (int r = 0; r < 6; ++r)
        for (int c = 0; c < 6; ++c) {
            T s = 0;
            for (int k = 0; k < 6; ++k)
                s += L(r, k) * W(k, c);
            vf::eq("product", s, A(r, c));
        }

//// lun C23_C02_C06 d f
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() != A.cols());
    auto p = linalg::lu_decomposition(A);
    auto n = A.rows();
    auto &L = p.first;
    auto &W = p.second;
    vf_eq_n("rows of the lower factor", L.rows(), n);
    vf_eq_n("columns of the lower factor", L.cols(), n);
    vf_eq_n("rows of the upper factor", W.rows(), n);
    vf_eq_n("columns of the upper factor", W.cols(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    if (j > i)
        vf::eq("zero above the diagonal", L(i, j), T(0));
    if (j < i)
        vf::eq("zero below the diagonal", W(i, j), T(0));
    vf::eq("unit diagonal", W(i, i), T(1));

//// lun_first_slow C23_C02 d
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols() && A.rows() > 0);
    auto p = linalg::lu_decomposition(A);
    auto i = vf_n("i");
    vf_assume(i < A.rows());
    vf::eq("first column", p.first(i, 0), A(i, 0));
    vf_assume(i > 0);
    vf_assume(!(A(0, 0) == T(0)));
    vf::eq("first row", p.second(0, i), A(0, i) / A(0, 0));

//// lu_any C23_C02 d
    // of any order: searched for counterexamples
    auto &A = ABS(T, "A");
    auto n = A.rows();
    vf_assume(n == A.cols());
    auto p = linalg::lu_decomposition(A);
    for (size_t k = 0; k < n; ++k)
        vf_assume(!(p.first(k, k) == T(0)));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    T s = 0;
    for (size_t k = 0; k < n; ++k)
        s += p.first(i, k) * p.second(k, j);
    vf::eq("product", s, A(i, j));

//// lu_nonsquare C23_C01_C02 d z
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() != A.cols());
    vf_assume(A.rows() != A.cols());
    (void)linalg::lu_decomposition(A);

//// lu_view C23_C13_C02 d
    MAT(T, M, "M", 3, 3);
    auto v = utility::view(M, 0, 2, 1, 3);
    vf_assume(!(v(0, 0) == T(0)));
    auto p = linalg::lu_decomposition(v);
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("product", p.first(r, 0) * p.second(0, c) + p.first(r, 1) * p.second(1, c), v(r, c));

//// pow0 C04_C06_C02 d z i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols() && A.rows() > 0);
    auto P = linalg::powm(A, 0);
    vf_eq_n("rows", P.rows(), A.rows());
    vf_eq_n("columns", P.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.rows());
    vf::eq("identity", P(i, j), i == j ? T(1) : T(0));

//// pow1 C04_C06_C02 d z i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols() && A.rows() > 0);
    auto P = linalg::powm(A, 1);
    vf_eq_n("rows", P.rows(), A.rows());
    vf_eq_n("columns", P.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.rows());
    vf::eq("the matrix itself", P(i, j), A(i, j));

//// pow2 C04_C06_C02 d i
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols() && A.rows() > 0);
    auto P = linalg::powm(A, 2);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.rows());
    T want = T(0);
    for (size_t k = 0; k < A.rows(); ++k)
        want += A(i, k) * A(k, j);
    vf::eq("square", P(i, j), want);

//// pow_small C04_C02 d z i
    MAT(T, A, "A", 2, 2);
    auto A2 = A * A;
    auto A3 = A2 * A;
    auto P0 = linalg::powm(A, 0), P1 = linalg::powm(A, 1), P2 = linalg::powm(A, 2), P3 = linalg::powm(A, 3), P4 = linalg::powm(A, 4);
    auto A4 = A2 * A2;
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            vf::eq("power zero", P0(r, c), T(r == c ? 1 : 0));
            vf::eq("power one", P1(r, c), A(r, c));
            vf::eq("power two", P2(r, c), A2(r, c));
            vf::eq("power three", P3(r, c), A3(r, c));
            vf::eq("power four", P4(r, c), A4(r, c));
        }

//// pow_any C04_C02 d
    // any power of a triangular matrix
    MAT(T, A, "A", 2, 2);
    A(1, 0) = T(0);
    auto N = vf_n("N");
    auto P = linalg::powm(A, N);
    T a = 1, b = 0, c = 1;
    for (size_t k = 0; k < N; ++k) {
        b = a * A(0, 1) + b * A(1, 1);
        a = a * A(0, 0);
        c = c * A(1, 1);
    }
    vf::eq("element 0 0", P(0, 0), a);
    vf::eq("element 0 1", P(0, 1), b);
    vf::eq("element 1 0", P(1, 0), T(0));
    vf::eq("element 1 1", P(1, 1), c);

//// pow_full C04_C02 d
    // any power of any matrix of order two
    MAT(T, A, "A", 2, 2);
    auto N = vf_n("N");
    auto P = linalg::powm(A, N);
    T a = 1, b = 0, c = 0, d = 1;
    for (size_t k = 0; k < N; ++k) {
        T w = a * A(0, 0) + b * A(1, 0), x = a * A(0, 1) + b * A(1, 1);
        T y = c * A(0, 0) + d * A(1, 0), z = c * A(0, 1) + d * A(1, 1);
        a = w, b = x, c = y, d = z;
    }
    vf::eq("element 0 0", P(0, 0), a);
    vf::eq("element 0 1", P(0, 1), b);
    vf::eq("element 1 0", P(1, 0), c);
    vf::eq("element 1 1", P(1, 1), d);

//// pow_order C04_C02 d
    // any order, any power: searched for counterexamples
    auto n = vf_n("n"), N = vf_n("N"), i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    MAT(T, A, "A", n, n);
    auto P = linalg::powm(A, N);
    Matrix<T> R(1, n, T(0));
    R(0, i) = T(1);
    for (size_t k = 0; k < N; ++k) {
        Matrix<T> S(1, n, T(0));
        for (size_t c = 0; c < n; ++c)
            for (size_t l = 0; l < n; ++l)
                S(0, c) += R(0, l) * A(l, c);
        for (size_t c = 0; c < n; ++c)
            R(0, c) = S(0, c);
    }
    vf::eq("element", P(i, j), R(0, j));

//// pow1x1 C04_C02 d i
    MAT(T, A, "A", 1, 1);
    auto N = vf_n("N");
    auto P = linalg::powm(A, N);
    T a = 1;
    for (size_t k = 0; k < N; ++k)
        a = a * A(0, 0);
    vf::eq("element", P(0, 0), a);

//// pow_nine C04_C02 d i
    MAT(T, A, "A", 2, 2);
    A(1, 0) = T(0);
    auto P = linalg::powm(A, 9);
    T a = 1, b = 0, c = 1;
    for (int k = 0; k < 9; ++k) {
        b = a * A(0, 1) + b * A(1, 1);
        a = a * A(0, 0);
        c = c * A(1, 1);
    }
    vf::eq("element 0 0", P(0, 0), a);
    vf::eq("element 0 1", P(0, 1), b);
    vf::eq("element 1 0", P(1, 0), T(0));
    vf::eq("element 1 1", P(1, 1), c);

//// pow_shape C04_C01_C02 d
    auto &A = ABS(T, "A");
    auto N = vf_n("N");
    vf_assume(A.rows() > 0 && A.cols() > 0);
    vf_throws_iff("C01:square", N > 0 && A.rows() != A.cols());
    auto P = linalg::powm(A, N);
    vf_eq_n("rows", P.rows(), A.rows());
    vf_eq_n("columns", P.cols(), A.cols());

//// factorial C21 i l
    vf_eq_n("zero", size_t(linalg::factorial(T(0))), 1);
    vf_eq_n("one", size_t(linalg::factorial(T(1))), 1);
    vf_eq_n("three", size_t(linalg::factorial(T(3))), 6);
    vf_eq_n("five", size_t(linalg::factorial(T(5))), 120);

//// qr_shape_slow C33_C02 d f
    auto n = vf_n("n"), m = vf_n("m");
    vf_assume(n > 0 && m > 0);
    MAT(T, A, "A", n, m);
    auto p = linalg::qr_decomposition(A);
    vf_eq_n("rows of Q", p.first.rows(), n);
    vf_eq_n("columns of Q", p.first.cols(), n);
    vf_eq_n("rows of R", p.second.rows(), n);
    vf_eq_n("columns of R", p.second.cols(), m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m && j < i);
    vf::eq("zero below the diagonal", p.second(i, j), typename decltype(p.second)::value_type(0));

//// qr21 C33_C02 d
    typedef std::conditional_t<std::is_arithmetic_v<T>, double, T> R_t;
    MAT(T, A, "A", 2, 1);
    vf_no_zero_division("the factors are finite");
    auto p = linalg::qr_decomposition(A);
    auto &Q = p.first;
    vf_eq_n("rows of Q", p.first.rows(), 2);
    vf_eq_n("columns of Q", p.first.cols(), 2);
    vf_eq_n("rows of R", p.second.rows(), 2);
    vf_eq_n("columns of R", p.second.cols(), 1);
    vf::eq("zero below the diagonal", p.second(1, 0), R_t(0));
    vf::eq("product", Q(0, 0) * p.second(0, 0), R_t(A(0, 0)));
    vf::eq("product below", Q(1, 0) * p.second(0, 0), R_t(A(1, 0)));
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("orthogonal", Q(r, 0) * conj_(Q(c, 0)) + Q(r, 1) * conj_(Q(c, 1)), R_t(r == c ? 1 : 0));

//// qr22 C33_C02 d
    typedef std::conditional_t<std::is_arithmetic_v<T>, double, T> R_t;
    MAT(T, A, "A", 2, 2);
    vf_no_zero_division("the factors are finite");
    auto p = linalg::qr_decomposition(A);
    vf::eq("zero below the diagonal", p.second(1, 0), R_t(0));
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c)
            vf::eq("product", p.first(r, 0) * p.second(0, c) + p.first(r, 1) * p.second(1, c), R_t(A(r, c)));

//// qr12 C33_C02 d z
    MAT(T, A, "A", 1, 2);
    vf_no_zero_division("the factors are finite");
    auto p = linalg::qr_decomposition(A);
    vf_eq_n("rows of R", p.second.rows(), 1);
    vf_eq_n("columns of R", p.second.cols(), 2);
    vf::eq("Q", p.first(0, 0), T(1));
    vf::eq("R", p.second(0, 0), A(0, 0));
    vf::eq("R", p.second(0, 1), A(0, 1));

//// qr_zero C33_C02 d z
    // columns of zeros
    for (int k = 1; k < 4; ++k) {
        Matrix<T> A(k, 2);
        for (int r = 0; r < k; ++r) {
            A(r, 0) = T(0);
            A(r, 1) = T(0);
        }
        vf_no_zero_division("the factors are finite");
        auto p = linalg::qr_decomposition(A);
        for (int r = 0; r < k; ++r)
            for (int c = 0; c < 2; ++c) {
                T s = 0;
                for (int l = 0; l < k; ++l)
                    s += p.first(r, l) * p.second(l, c);
                vf::eq("product", s, T(0));
                vf::eq("upper factor", p.second(r, c), T(0));
            }
    }

//// qr21_given C33_C02 z
    // leading columns whose length is rational
    static const double given[][4] = { { 3, 4, 12, 0 }, { 0, 0, 3, 4 }, { -2, 0, 1, 2 }, { 0, 5, 0, 0 }, { 0, 0, 0, 0 } };
    for (int s = 0; s < 5; ++s) {
        MAT(T, A, "A", 2, 2);
        A(0, 0) = T(given[s][0], given[s][1]);
        A(1, 0) = T(given[s][2], given[s][3]);
        vf_no_zero_division("the factors are finite");
        auto p = linalg::qr_decomposition(A);
        auto &Q = p.first;
        auto &R = p.second;
        vf_eq_n("rows of Q", Q.rows(), 2);
        vf_eq_n("columns of Q", Q.cols(), 2);
        vf_eq_n("rows of R", R.rows(), 2);
        vf_eq_n("columns of R", R.cols(), 2);
        vf::eq("zero below the diagonal", R(1, 0), T(0));
        for (int r = 0; r < 2; ++r)
            for (int c = 0; c < 2; ++c) {
                vf::eq("product", Q(r, 0) * R(0, c) + Q(r, 1) * R(1, c), A(r, c));
                vf::eq("orthogonal", Q(r, 0) * conj_(Q(c, 0)) + Q(r, 1) * conj_(Q(c, 1)), T(r == c ? 1 : 0));
            }
    }

//// qr32 C33_C02 d
    MAT(T, A, "A", 3, 2);
    A(0, 0) = 1;
    A(1, 0) = 2;
    A(2, 0) = 2;
    auto p = linalg::qr_decomposition(A);
    vf_eq_n("rows of R", p.second.rows(), 3);
    vf_eq_n("columns of R", p.second.cols(), 2);
    for (int c = 0; c < 2; ++c)
        for (int r = c + 1; r < 3; ++r)
            vf::eq("zero below the diagonal", p.second(r, c), T(0));
    for (int r = 0; r < 3; ++r)
        vf::eq("product", p.first(r, 0) * p.second(0, 0), A(r, 0));

//// qr_one C33_C02 d
    MAT(T, A, "A", 1, 3);
    auto p = linalg::qr_decomposition(A);
    vf_eq_n("rows of Q", p.first.rows(), 1);
    vf_eq_n("columns of Q", p.first.cols(), 1);
    vf::eq("Q", p.first(0, 0), T(1));
    for (int c = 0; c < 3; ++c)
        vf::eq("R", p.second(0, c), A(0, c));

//// cofactor C14_C02_C06_C08 d z i
    // every row and column of some shapes
    static const int shapes[][2] = { { 3, 3 }, { 2, 4 }, { 4, 2 }, { 2, 2 } };
    for (int s = 0; s < 4; ++s) {
        const int n = shapes[s][0], m = shapes[s][1];
        MAT(T, A, "A", n, m);
        for (int p = 0; p < n; ++p) {
            for (int q = 0; q < m; ++q) {
                auto R = linalg::cofactor(A, p, q);
                vf::stored(R);
                vf_eq_n("rows of the minor", R.rows(), n - 1);
                vf_eq_n("columns of the minor", R.cols(), m - 1);
                for (int i = 0; i < n - 1; ++i)
                    for (int j = 0; j < m - 1; ++j)
                        vf::eq("element of the minor", R(i, j), Without<T>{ A, size_t(p), size_t(q) }(i, j));
            }
        }
    }

//// cofactor_thin C14_C02_C06_C08 d i
    // a single row or column: nothing is left, the other dimension is one less
    MAT(T, A, "A", 1, 3);
    auto R = linalg::cofactor(A, 0, 1);
    vf::stored(R);
    vf_eq_n("rows of the minor", R.rows(), 0);
    MAT(T, B, "B", 3, 1);
    auto S = linalg::cofactor(B, 1, 0);
    vf::stored(S);
    vf_eq_n("columns of the minor", S.cols(), 0);

//// cofactor_any C14_C02_C06 d i
    auto &A = ABS(T, "A");
    size_t p = vf_n("p"), q = vf_n("q");
    vf_throws_iff("C14:row and column inside", p >= A.rows() || q >= A.cols());
    auto R = linalg::cofactor(A, p, q);
    vf_eq_n("rows of the minor", R.rows(), A.rows() - 1);
    vf_eq_n("columns of the minor", R.cols(), A.cols() - 1);
    size_t i = vf_n("i"), j = vf_n("j");
    vf_assume(i < R.rows() && j < R.cols());
    vf::eq("element of the minor", R(i, j), A(i + (i >= p), j + (j >= q)));
