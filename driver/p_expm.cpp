// Written by tools/gen_tpl.py from expm.tpl.
// The matrix exponential of nilpotent matrices (C37): the power series ends, so that its value is exact.
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include "malg/feq.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
namespace feq = malg::feq;
// A usable tolerance and accuracy; the relative error the loop ends by needs an invertible estimate.
template <typename M> static double usable(const M &E)
{
    vf_assume(std::abs(feq::tolerance()) < 0.001);
    double acc = vf_r("acc");
    vf_assume(acc > 0);
    auto S = E * E + acc;
    vf_assume(linalg::determinant(S) != 0);
    return acc;
}


template <typename T> static void t_zero()
{
    // the exponential of nothing is the identity
    for (int n = 1; n < 4; ++n) {
        Matrix<T> A(n, n);
        vf_assume(std::abs(feq::tolerance()) < 0.001);
        auto E = linalg::expm(A, 0.);
        vf::stored(E);
        vf_eq_n("rows", E.rows(), n);
        vf_eq_n("columns", E.cols(), n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                vf::eq("identity", E(i, j), T(i == j));
    }
}

PROBE(C37_C02_zero_d)
{
    t_zero<double>();
}

template <typename T> static void t_nil2()
{
    // a shear of any small size
    Matrix<T> A(2, 2);
    T a = vf_r("a");
    A(0, 1) = a;
    vf_assume(std::abs(a) <= 1);
    double acc = usable(utility::identity<T>(2) + A);
    auto E = linalg::expm(A, acc);
    vf::eq("diagonal", E(0, 0), 1.);
    vf::eq("upper", E(0, 1), a);
    vf::eq("lower", E(1, 0), 0.);
    vf::eq("diagonal", E(1, 1), 1.);
}

PROBE(C37_C02_nil2_d)
{
    t_nil2<double>();
}

template <typename T> static void t_nil2_lower()
{
    Matrix<T> A(2, 2);
    T a = vf_r("a");
    A(1, 0) = a;
    vf_assume(std::abs(a) <= 1);
    double acc = usable(utility::identity<T>(2) + A);
    auto E = linalg::expm(A, acc);
    vf::eq("diagonal", E(0, 0), 1.);
    vf::eq("upper", E(0, 1), 0.);
    vf::eq("lower", E(1, 0), a);
    vf::eq("diagonal", E(1, 1), 1.);
}

PROBE(C37_C02_nil2_lower_d)
{
    t_nil2_lower<double>();
}

template <typename T> static void t_nil2_scaled()
{
    // two halvings are undone by two squarings
    Matrix<T> A(2, 2);
    T a = vf_r("a");
    A(0, 1) = a;
    vf_assume(std::abs(a) > 2);
    vf_assume(std::abs(a) <= 4);
    double acc = usable(utility::identity<T>(2) + A * .25);
    auto E = linalg::expm(A, acc);
    vf::eq("diagonal", E(0, 0), 1.);
    vf::eq("upper", E(0, 1), a);
    vf::eq("lower", E(1, 0), 0.);
    vf::eq("diagonal", E(1, 1), 1.);
}

PROBE(C37_C02_nil2_scaled_d)
{
    t_nil2_scaled<double>();
}

template <typename T> static void t_nil2_scaled_more()
{
    // five halvings are undone by five squarings
    Matrix<T> A(2, 2);
    T a = vf_r("a");
    A(0, 1) = a;
    vf_assume(std::abs(a) > 16);
    vf_assume(std::abs(a) <= 32);
    double acc = usable(utility::identity<T>(2) + A * .03125);
    auto E = linalg::expm(A, acc);
    vf::eq("diagonal", E(0, 0), 1.);
    vf::eq("upper", E(0, 1), a);
    vf::eq("lower", E(1, 0), 0.);
    vf::eq("diagonal", E(1, 1), 1.);
}

PROBE(C37_C02_nil2_scaled_more_d)
{
    t_nil2_scaled_more<double>();
}

template <typename T> static void t_nil2_full()
{
    // all elements differ from zero
    Matrix<T> A(2, 2);
    T x = vf_r("x");
    A(0, 0) = x;
    A(0, 1) = .5;
    A(1, 0) = -2 * x * x;
    A(1, 1) = -x;
    vf_assume(std::abs(x) + .5 <= 1);
    vf_assume(2 * x * x + std::abs(x) <= 1);
    double acc = usable(utility::identity<T>(2) + A);
    auto E = linalg::expm(A, acc);
    vf::eq("diagonal", E(0, 0), 1 + x);
    vf::eq("upper", E(0, 1), .5);
    vf::eq("lower", E(1, 0), -2 * x * x);
    vf::eq("diagonal", E(1, 1), 1 - x);
}

PROBE(C37_C02_nil2_full_d)
{
    t_nil2_full<double>();
}

template <typename T> static void t_nil3()
{
    // the square is there as well, the cube is not; the next batch of terms adds nothing
    Matrix<T> A(3, 3);
    A(0, 1) = .5;
    A(0, 2) = .25;
    A(1, 2) = -.5;
    feq::tolerance() = 1. / (1 << 20);
    auto E = linalg::expm(A, .25);
    T e[3][3] = { { 1, .5, .125 }, { 0, 1, -.5 }, { 0, 0, 1 } };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            vf::eq("series", E(i, j), e[i][j]);
}

PROBE(C37_C02_nil3_d)
{
    t_nil3<double>();
}

template <typename T> static void t_nil4()
{
    Matrix<T> A(4, 4);
    A(0, 1) = .5;
    A(1, 2) = -.5;
    A(2, 3) = 1;
    feq::tolerance() = 1. / (1 << 20);
    auto E = linalg::expm(A, 1.);
    T e[4][4] = { { 1, .5, -.125, 0 }, { 0, 1, -.5, -.25 }, { 0, 0, 1, 1 }, { 0, 0, 0, 1 } };
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            vf::eq("series", 6 * E(i, j), (i == 0 && j == 3) ? -.25 : 6 * e[i][j]);
}

PROBE(C37_C02_nil4_d)
{
    t_nil4<double>();
}
