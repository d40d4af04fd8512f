// Predicates (C17), reductions and comparison (C18).
#include "vfm.hpp"
#include "malg/linalg.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
static size_t least(size_t a, size_t b) { return a < b ? a : b; }
template <typename T> static bool near_zero(T x)
{
    return std::abs(x) <= malg::feq::tolerance() * std::abs(x);
}
template <typename T> static T sq(T x) { return x * x; }
template <typename T> static T sq(std::complex<T> x) { return x.real() * x.real() + x.imag() * x.imag(); }
template <typename T> struct under { typedef T type; };
template <typename T> struct under<std::complex<T>> { typedef T type; };
// all elements named by the condition satisfy the rule
template <typename T, typename Which, typename Rule> static bool every(const MatrixBase<T> &A, Which w, Rule r)
{
    for (size_t i = 0; i < A.rows(); ++i)
        for (size_t j = 0; j < A.cols(); ++j)
            if (w(i, j) && !r(i, j))
                return false;
    return true;
}

//// shape C17 d z i f
    auto &A = ABS(T, "A");
    vf_eq_b("square", utility::is_square(A), A.rows() == A.cols());
    vf_eq_b("row", utility::is_row_vector(A), A.rows() == 1);
    vf_eq_b("column", utility::is_column_vector(A), A.cols() == 1);

//// nonsquare C17 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() != A.cols());
    vf_eq_b("symmetric", utility::is_symmetric(A), false);
    vf_eq_b("skew symmetric", utility::is_skew_symmetric(A), false);
    vf_eq_b("diagonal", utility::is_diagonal(A), false);
    vf_eq_b("identity", utility::is_identity(A), false);
    vf_eq_b("orthogonal", utility::is_orthogonal(A), false);
    vf_eq_b("lower", utility::is_lower_triangular(A), false);
    vf_eq_b("upper", utility::is_upper_triangular(A), false);

//// lower C17_C06 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_lower_triangular(A);
    vf_eq_b("lower triangular", got, every(A, [](size_t i, size_t j) { return j > i; }, [&](size_t i, size_t j) { return A(i, j) == T(0); }));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols() && i < j && got);
    vf_true("an element above the diagonal of a lower triangular matrix", A(i, j) == T(0));

//// upper C17_C06 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_upper_triangular(A);
    vf_eq_b("upper triangular", got, every(A, [](size_t i, size_t j) { return j < i; }, [&](size_t i, size_t j) { return A(i, j) == T(0); }));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols() && j < i && got);
    vf_true("an element below the diagonal of an upper triangular matrix", A(i, j) == T(0));

//// diagonal C17_C06 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_diagonal(A);
    vf_eq_b("diagonal", got, every(A, [](size_t i, size_t j) { return j != i; }, [&](size_t i, size_t j) { return A(i, j) == T(0); }));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols() && j != i && got);
    vf_true("an element off the diagonal of a diagonal matrix", A(i, j) == T(0));

//// symmetric C17_C06 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_symmetric(A);
    vf_eq_b("symmetric", got, every(A, [](size_t i, size_t j) { return true; }, [&](size_t i, size_t j) { return A(i, j) == A(j, i); }));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols() && got);
    vf::eq("elements of a symmetric matrix", A(i, j), A(j, i));

//// skew C17_C06 d z i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_skew_symmetric(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_eq_b("skew symmetric", got, every(A, [](size_t i, size_t j) { return true; }, [&](size_t i, size_t j) { return A(i, j) == -A(j, i); }));
    vf_assume(i < A.rows() && j < A.cols() && got);
    vf::eq("elements of a skew symmetric matrix", A(i, j), -A(j, i));

//// zero C17_C06 d z i f
    auto &A = ABS(T, "A");
    bool got = utility::is_zero(A);
    vf_eq_b("zero", got, every(A, [](size_t i, size_t j) { return true; }, [&](size_t i, size_t j) { return A(i, j) == T(0); }));
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols() && got);
    vf::eq("element of a zero matrix", A(i, j), T(0));

//// zero_not C17 d z i f
    auto &A = ABS(T, "A");
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf_assume(!(A(i, j) == T(0)));
    vf_eq_b("not zero", utility::is_zero(A), false);
    vf_assume(A.rows() == A.cols());
    if (i < j)
        vf_eq_b("not lower triangular", utility::is_lower_triangular(A), false);
    if (i > j)
        vf_eq_b("not upper triangular", utility::is_upper_triangular(A), false);
    if (i != j)
        vf_eq_b("not diagonal", utility::is_diagonal(A), false);

//// constant C17_C06 d z i f
    auto &A = ABS(T, "A");
    bool got = utility::is_constant(A);
    bool want = true;
    for (size_t k = 0; k < A.size(); ++k)
        if (!(A[k] == A[0]))
            want = false;
    vf_eq_b("constant", got, want);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.size() && j < A.size() && got);
    vf::eq("elements of a constant matrix", A[i], A[j]);

//// identity C17_C06 d i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_identity(A);
    vf_eq_b("identity", got, every(A, [](size_t i, size_t j) { return true; }, [&](size_t i, size_t j) { return malg::feq::approximately_equal(A(i, j), T(i == j ? 1 : 0)); }));

//// identity_built C17_C15 d z i f
    auto n = vf_n("n");
    vf_assume(n > 0);
    auto A = utility::identity<T>(n);
    vf_true("identity", utility::is_identity(A));
    vf_true("diagonal", utility::is_diagonal(A));
    vf_true("symmetric", utility::is_symmetric(A));
    vf_true("lower", utility::is_lower_triangular(A));
    vf_true("upper", utility::is_upper_triangular(A));
    vf_true("square", utility::is_square(A));
    vf_eq_b("constant only when there is one element", utility::is_constant(A), n == 1);
    vf_eq_b("zero", utility::is_zero(A), false);

//// identity_two C17 d i f
    MAT(T, A, "S", 2, 2);
    bool got = utility::is_identity(A);
    auto same = [](T a, T b) { return malg::feq::approximately_equal(a, b); };
    vf_eq_b("identity", got, same(A(0, 0), 1) && same(A(1, 1), 1) && same(A(0, 1), 0) && same(A(1, 0), 0));

//// orthogonal_two C17 d f
    MAT(T, A, "S", 2, 2);
    bool got = utility::is_orthogonal(A);
    auto ok = [](T a, T b) { return std::abs(a - b) <= malg::feq::tolerance(); };
    bool want = true;
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j)
            if (!ok(A(i, 0) * A(j, 0) + A(i, 1) * A(j, 1), i == j ? 1 : 0))
                want = false;
    vf_eq_b("orthogonal", got, want);

//// orthogonal C17_C06 d i f
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == A.cols());
    bool got = utility::is_orthogonal(A);
    bool want = true;
    for (size_t i = 0; i < A.rows(); ++i)
        for (size_t j = 0; j < A.rows(); ++j) {
            T s = 0;
            for (size_t k = 0; k < A.cols(); ++k)
                s += A(i, k) * A(j, k);
            if (!(std::abs(s - T(i == j ? 1 : 0)) <= malg::feq::tolerance()))
                want = false;
        }
    vf_eq_b("orthogonal", got, want);

//// close C17_C01_C06 d z f
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    auto tol = vf_r("tol");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    bool got = utility::all_close(A, B, tol);
    bool want = true;
    for (size_t k = 0; k < A.size(); ++k)
        if (std::abs(A[k] - B[k]) > tol)
            want = false;
    vf_eq_b("within the tolerance everywhere", got, want);
    auto i = vf_n("i");
    vf_assume(i < A.size() && got);
    vf_true("each difference", std::abs(A[i] - B[i]) <= tol);

//// vclose C17_C01_C06 d z f
    auto n = vf_n("n"), m = vf_n("m");
    VEC(T, a, "a", n);
    VEC(T, b, "b", m);
    auto tol = vf_r("tol");
    vf_throws_iff("C01:size", n != m);
    bool got = utility::all_close(a, b, tol);
    bool want = true;
    for (size_t k = 0; k < n; ++k)
        if (std::abs(a[k] - b[k]) > tol)
            want = false;
    vf_eq_b("within the tolerance everywhere", got, want);

//// invertible C17_C21 d f
    MAT(T, A, "S", 2, 2);
    T det = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
    vf_eq_b("invertible", utility::is_invertible(A), !(det == T(0)));
    vf_eq_b("dependent", utility::is_linearly_dependent(A), det == T(0));
    vf_eq_b("independent", utility::is_linearly_independent(A), !(det == T(0)));

//// sum C18_C06 d z i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    const auto &ca = a;
    T want = 0;
    for (size_t k = 0; k < n; ++k)
        want = want + vf::in<T>::at("a", k);
    vf::eq("sum", malg::sum(ca), want);
    vf::eq("accumulate", utility::accumulate(a.data(), a.data() + n, T(0)), want);

//// sum_small C18 d z i f
    Vector<T> e(0);
    VEC(T, a, "a", 3);
    vf::eq("nothing", malg::sum(e), T(0));
    vf::eq("three", malg::sum(a), a[0] + a[1] + a[2]);

//// inner C18_C04 d z i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    VEC(T, b, "b", n);
    T init = vf::in<T>::at("x", 0), want = init;
    for (size_t k = 0; k < n; ++k)
        want = want + a[k] * b[k];
    vf::eq("inner product", utility::inner_product(a.data(), a.data() + n, b.data(), init), want);

//// trace C18_C02_C06 d z i f
    auto &A = ABS(T, "A");
    T want = 0;
    for (size_t k = 0; k < least(A.rows(), A.cols()); ++k)
        want += A(k, k);
    vf::eq("trace", malg::trace(A), want);

//// minmax_vec C18_C02_C06 d i f
    auto n = vf_n("n"), i = vf_n("i");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto lo = malg::min(ca);
    auto hi = malg::max(ca);
    vf_assume(n > 0 && i < n);
    vf_true("position of the minimum", lo.second < n);
    vf_true("position of the maximum", hi.second < n);
    vf::eq("minimum is at its position", lo.first, a[lo.second]);
    vf::eq("maximum is at its position", hi.first, a[hi.second]);
    vf_true("no element is smaller", lo.first <= a[i]);
    vf_true("no element is greater", hi.first >= a[i]);

//// minmax_vec_ref C18 d i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    auto lo = malg::min(a);
    auto hi = malg::max(a);
    vf_assume(n > 0);
    size_t p = 0, q = 0;
    for (size_t k = 0; k < n; ++k) {
        if (a[k] < a[p])
            p = k;
        if (a[k] > a[q])
            q = k;
    }
    vf_eq_n("first position of the minimum", lo.second, p);
    vf_eq_n("first position of the maximum", hi.second, q);
    vf::eq("minimum", lo.first, a[p]);
    vf::eq("maximum", hi.first, a[q]);

//// minmax_three C18 d i f
    VEC(T, a, "a", 3);
    auto lo = malg::min(a);
    auto hi = malg::max(a);
    size_t p = a[1] < a[0] ? (a[2] < a[1] ? 2 : 1) : (a[2] < a[0] ? 2 : 0);
    size_t q = a[1] > a[0] ? (a[2] > a[1] ? 2 : 1) : (a[2] > a[0] ? 2 : 0);
    vf_eq_n("position of the minimum", lo.second, p);
    vf_eq_n("position of the maximum", hi.second, q);
    vf::eq("minimum", lo.first, a[p]);
    vf::eq("maximum", hi.first, a[q]);

//// minmax_none C18 d i f
    Vector<T> e(0);
    auto lo = malg::min(e);
    auto hi = malg::max(e);
    vf::eq("minimum of nothing", lo.first, T(0));
    vf::eq("maximum of nothing", hi.first, T(0));
    vf_eq_n("position", lo.second + hi.second, 0);
    Matrix<T> E(0, 0);
    vf_eq_n("minima of nothing", malg::min(E).size(), 0);
    vf_eq_n("maxima of nothing", malg::max(E).size(), 0);

//// minmax_mat C18_C02_C06 d i f
    auto n = vf_n("n"), m = vf_n("m"), c = vf_n("c");
    vf_assume(n > 0 && m > 0 && c < m);
    MAT(T, A, "S", n, m);
    const auto &cA = A;
    auto lo = malg::min(cA);
    auto hi = malg::max(cA);
    vf_eq_n("one minimum per column", lo.size(), m);
    vf_eq_n("one maximum per column", hi.size(), m);
    size_t p = 0, q = 0;
    for (size_t k = 0; k < n; ++k) {
        if (A(k, c) < A(p, c))
            p = k;
        if (A(k, c) > A(q, c))
            q = k;
    }
    vf::eq("minimum of a column", lo[c], A(p, c));
    vf::eq("maximum of a column", hi[c], A(q, c));

//// minmax_mat_two C18 d i f
    auto m = vf_n("m"), c = vf_n("c");
    vf_assume(m > 0 && c < m);
    MAT(T, A, "S", 2, m);
    auto lo = malg::min(A);
    auto hi = malg::max(A);
    vf::eq("minimum of a column", lo[c], A(1, c) < A(0, c) ? A(1, c) : A(0, c));
    vf::eq("maximum of a column", hi[c], A(1, c) > A(0, c) ? A(1, c) : A(0, c));

//// allany C18_C06 d z i f
    auto &A = ABS(T, "A");
    bool all = true, any = false;
    for (size_t k = 0; k < A.size(); ++k) {
        if (A[k] == T(0))
            all = false;
        if (!(A[k] == T(0)))
            any = true;
    }
    bool gall = malg::all(A), gany = malg::any(A);
    vf_eq_b("all", gall, all);
    vf_eq_b("any", gany, any);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf_true("all means each", !gall || !(A[i] == T(0)));
    vf_true("each means any", gany || A[i] == T(0));

//// vallany C18_C06 d z i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    const auto &ca = a;
    bool all = true, any = false;
    for (size_t k = 0; k < n; ++k) {
        if (a[k] == T(0))
            all = false;
        if (!(a[k] == T(0)))
            any = true;
    }
    bool gall = malg::all(ca), gany = malg::any(ca);
    vf_eq_b("all", gall, all);
    vf_eq_b("any", gany, any);

//// norm_vec C18_C06 d z f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    const auto &ca = a;
    typename under<T>::type s = 0;
    for (size_t k = 0; k < n; ++k)
        s += sq(a[k]);
    vf::eq("norm", malg::square_norm(ca), std::sqrt(s));

//// norm_mat C18_C06 d z f
    auto &A = ABS(T, "A");
    typename under<T>::type s = 0;
    for (size_t i = 0; i < A.rows(); ++i)
        for (size_t j = 0; j < A.cols(); ++j)
            s += sq(A(i, j));
    vf::eq("norm", malg::square_norm(A), std::sqrt(s));

//// length C18_C02_C06 d z f
    auto &A = ABS(T, "A");
    auto c = vf_n("c"), r0 = vf_n("r0"), r1 = vf_n("r1");
    vf_assume(c < A.cols());
    typename under<T>::type s = 0;
    for (size_t r = r0; r < (r1 < A.rows() ? r1 : A.rows()); ++r)
        s += sq(A(r, c));
    vf::eq("length", malg::vector_length(A, c, r0, r1), std::sqrt(s));
    typename under<T>::type t = 0;
    for (size_t r = 0; r < A.rows(); ++r)
        t += sq(A(r, c));
    vf::eq("length of the whole column", malg::vector_length(A, c), std::sqrt(t));

//// length2 C18_C02_C06 d z f
    auto &A = ABS(T, "A");
    auto c = vf_n("c"), r0 = vf_n("r0"), r1 = vf_n("r1");
    vf_assume(c < A.cols() && r0 <= r1 && r1 <= A.rows());
    typename under<T>::type s = 0;
    for (size_t r = r0; r < r1; ++r)
        s += sq(A(r, c));
    vf::eq("length", malg::vector_length(A, c, r0, r1), std::sqrt(s));

//// subnorm C18_C01_C06 d z f
    auto &A = ABS(T, "A");
    vf_throws_iff("C01:square", A.rows() * A.cols() != 0 && A.rows() != A.cols());
    typename under<T>::type s = 0, got = malg::sub_norm(A);
    vf_assume(A.rows() * A.cols() != 0);
    for (size_t i = 0; i < A.rows(); ++i)
        for (size_t j = 0; j < i; ++j)
            s += sq(A(i, j));
    vf::eq("norm below the diagonal", got, std::sqrt(s));

//// subnorm_two C18 d z f
    MAT(T, A, "S", 2, 2);
    vf::eq("norm below the diagonal", malg::sub_norm(A), std::sqrt(sq(A(1, 0))));
    MAT(T, B, "S", 3, 3);
    vf::eq("norm below the diagonal of three", malg::sub_norm(B), std::sqrt(sq(B(1, 0)) + sq(B(2, 0)) + sq(B(2, 1))));

//// inf_vec C18_C02_C06 d z f i
    auto n = vf_n("n"), i = vf_n("i");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto got = malg::infinity_norm(ca);
    vf_assume(i < n);
    vf_true("no element is greater", std::abs(a[i]) <= got);
    typename under<T>::type want = std::abs(a[0]);
    for (size_t k = 1; k < n; ++k)
        want = want < std::abs(a[k]) ? std::abs(a[k]) : want;
    vf::eq("largest magnitude", got, want);

//// inf_small C18 d z f i
    Vector<T> e(0);
    Matrix<T> E(0, 0);
    typedef typename under<T>::type R;
    vf::eq("nothing", malg::infinity_norm(e), R(0));
    vf::eq("empty matrix", malg::infinity_norm(E), R(0));
    VEC(T, a, "a", 2);
    R x = std::abs(a[0]), y = std::abs(a[1]);
    vf::eq("two", malg::infinity_norm(a), x < y ? y : x);
    MAT(T, A, "S", 2, 2);
    R u = std::abs(A(0, 0)) + std::abs(A(0, 1)), v = std::abs(A(1, 0)) + std::abs(A(1, 1));
    vf::eq("two rows", malg::infinity_norm(A), u < v ? v : u);

//// inf_mat C18_C02_C06 d z f
    auto &A = ABS(T, "A");
    auto got = malg::infinity_norm(A);
    typename under<T>::type want = 0;
    for (size_t i = 0; i < A.rows(); ++i) {
        typename under<T>::type s = 0;
        for (size_t j = 0; j < A.cols(); ++j)
            s += std::abs(A(i, j));
        want = want < s ? s : want;
    }
    vf_assume(A.rows() * A.cols() != 0);
    vf::eq("largest row sum", got, want);

//// compare C18_C06 d i f
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    vf_throws_iff("C01:size", A.rows() * A.cols() != B.rows() * B.cols());
    auto got = utility::compare(A, B);
    long want = 0;
    for (size_t k = 0; k < A.size(); ++k)
        if (!(A[k] == B[k])) {
            want = A[k] < B[k] ? -(long)(k + 1) : (long)(k + 1);
            break;
        }
    vf_true("comparison", got == want);

//// compare_vec C18_C06 d i f
    auto n = vf_n("n"), m = vf_n("m");
    VEC(T, a, "a", n);
    VEC(T, b, "b", m);
    vf_throws_iff("C01:size", n != m);
    auto got = utility::compare(a, b);
    long want = 0;
    for (size_t k = 0; k < n; ++k)
        if (!(a[k] == b[k])) {
            want = a[k] < b[k] ? -(long)(k + 1) : (long)(k + 1);
            break;
        }
    vf_true("comparison", got == want);

//// compare_two C18 d i f
    VEC(T, a, "a", 2);
    VEC(T, b, "b", 2);
    auto got = utility::compare(a, b);
    long want = a[0] < b[0] ? -1 : b[0] < a[0] ? 1 : a[1] < b[1] ? -2 : b[1] < a[1] ? 2 : 0;
    vf_true("comparison", got == want);

//// projection C18_C01 d f
    auto n = vf_n("n"), m = vf_n("m"), i = vf_n("i");
    VEC(T, a, "a", n);
    VEC(T, b, "b", m);
    vf_throws_iff("C01:size", n != m);
    auto p = malg::projection(a, b);
    vf_assume(n == m);
    T ab = 0, bb = 0;
    for (size_t k = 0; k < n; ++k) {
        ab += a[k] * b[k];
        bb += b[k] * b[k];
    }
    vf_assume(!(bb == T(0)));
    vf_eq_n("size", p.size(), m);
    vf_assume(i < m);
    vf::eq("element", p[i], b[i] * (ab / bb));

//// log2 C18 d f
    auto &A = ABS(T, "A");
    auto n = malg::infinity_norm(A);
    vf_assume(n <= 1);
    auto r = malg::log2_ceil(A);
    vf_eq_n("nothing to scale", r.first, 0);
    vf::eq("scale", r.second, T(1));
