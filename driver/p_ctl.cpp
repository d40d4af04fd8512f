// Written by tools/gen_tpl.py from ctl.tpl.
// State-space models (C24); controllability, observability and polynomials (C25).
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include "malg/control/control.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
namespace control = malg::control;
namespace feq = malg::feq;
/// Stands for the matrix exponential (whose values are out of reach, C37): the discretisation must pass it
/// the scaled system matrix, and gets arbitrary values.
extern "C" Matrix<double> vf_model_expm_d(const MatrixBase<double> &A)
{
    auto i = vf_n("ei"), j = vf_n("ej");
    vf_true("C24:exponential of a square matrix", A.rows() == A.cols());
    if (i < A.rows() && j < A.cols())
        vf::eq("C24:exponential of A times the sample time", A(i, j), vf_in_d("A", A.cols() * i + j) * vf_r("ts"));
    Matrix<double> E(A.rows(), A.cols());
    vf_fill(E.data(), "E", 'd');
    return E;
}
template <typename T> static control::DiscreteStateSpace<T> model(size_t n, size_t q, size_t p, T ts)
{
    MAT(T, A, "A", n, n);
    MAT(T, B, "B", n, q);
    MAT(T, C, "C", p, n);
    MAT(T, D, "D", p, q);
    return control::DiscreteStateSpace<T>(A, B, C, D, ts);
}
// the value of row i of M x
template <typename T> static T row(const Matrix<T> &M, size_t i, const Vector<T> &x)
{
    T s = T(0);
    for (size_t k = 0; k < x.size(); ++k)
        s += M(i, k) * x[k];
    return s;
}
template <typename T> static T mul(const Matrix<T> &L, const Matrix<T> &R, size_t i, size_t j)
{
    T s = T(0);
    for (size_t k = 0; k < L.cols(); ++k)
        s += L(i, k) * R(k, j);
    return s;
}
template <typename T> static Matrix<T> times(const Matrix<T> &L, const Matrix<T> &R)
{
    Matrix<T> M(L.rows(), R.cols());
    for (size_t i = 0; i < L.rows(); ++i)
        for (size_t j = 0; j < R.cols(); ++j)
            M(i, j) = mul(L, R, i, j);
    return M;
}
// the value at x of the polynomial with the roots a
template <typename T, typename V> static T prodroots(const V &a, size_t n, T x)
{
    T s = T(1);
    for (size_t k = 0; k < n; ++k)
        s *= x - a[k];
    return s;
}
template <typename T, typename V> static T horner(const V &c, size_t n, T x)
{
    T s = c[0];
    for (size_t k = 1; k <= n; ++k)
        s = s * x + c[k];
    return s;
}


template <typename T> static void t_construct()
{
    auto n = vf_n("n"), q = vf_n("q"), p = vf_n("p");
    MAT(T, A, "A", n, n);
    MAT(T, B, "B", n, q);
    MAT(T, C, "C", p, n);
    MAT(T, D, "D", p, q);
    control::StateSpace<T> s(A, B, C, D);
    control::DiscreteStateSpace<T> d(A, B, C, D, vf::in<T>::at("ts", 0));
    vf_eq_n("A rows", s.A.rows(), n);
    vf_eq_n("A cols", s.A.cols(), n);
    vf_eq_n("B rows", s.B.rows(), n);
    vf_eq_n("B cols", s.B.cols(), q);
    vf_eq_n("C rows", s.C.rows(), p);
    vf_eq_n("C cols", s.C.cols(), n);
    vf_eq_n("D rows", s.D.rows(), p);
    vf_eq_n("D cols", s.D.cols(), q);
    vf_eq_n("discrete B cols", d.B.cols(), q);
    vf_eq_n("discrete C rows", d.C.rows(), p);
    vf_eq_n("discrete D rows", d.D.rows(), p);
    vf_eq_n("discrete D cols", d.D.cols(), q);
    vf::eq("sample time", d.sample_time, vf::in<T>::at("ts", 0));
    auto i = vf_n("i"), j = vf_n("j"), k = vf_n("k"), l = vf_n("l");
    vf_assume(i < n && j < n && k < q && l < p);
    vf::eq("A", s.A(i, j), A(i, j));
    vf::eq("B", s.B(i, k), B(i, k));
    vf::eq("C", s.C(l, j), C(l, j));
    vf::eq("D", s.D(l, k), D(l, k));
    vf::eq("discrete A", d.A(i, j), A(i, j));
    vf::eq("discrete B", d.B(i, k), B(i, k));
    vf::eq("discrete C", d.C(l, j), C(l, j));
    vf::eq("discrete D", d.D(l, k), D(l, k));
}

PROBE(C24_C09_C08_construct_d)
{
    t_construct<double>();
}

PROBE(C24_C09_C08_construct_z)
{
    t_construct<cplx>();
}

PROBE(C24_C09_C08_construct_f)
{
    t_construct<float>();
}

template <typename T> static void t_construct_empty()
{
    control::StateSpace<T> s;
    control::DiscreteStateSpace<T> d;
    vf_true("no model", s.A.empty() && s.B.empty() && s.C.empty() && s.D.empty());
    vf_true("no discrete model", d.A.empty() && d.B.empty() && d.C.empty() && d.D.empty());
    vf::eq("no sample time", d.sample_time, T(0));
    vf::stored(s.A);
    vf::stored(d.D);
}

PROBE(C24_C08_construct_empty_d)
{
    t_construct_empty<double>();
}

PROBE(C24_C08_construct_empty_f)
{
    t_construct_empty<float>();
}

template <typename T> static void t_zero_input()
{
    auto n = vf_n("n"), q = vf_n("q"), p = vf_n("p");
    vf_assume(n > 0 && q > 0 && p > 0);
    control::StateSpace<T> s = model<T>(n, q, p, T(1));
    auto u = control::generate_input_zero(s);
    auto x = control::generate_state_zero(s);
    vf_eq_n("inputs", u.size(), q);
    vf_eq_n("states", x.size(), n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < q && j < n);
    vf::eq("input", u[i], T(0));
    vf::eq("state", x[j], T(0));
}

PROBE(C24_C08_zero_input_d)
{
    t_zero_input<double>();
}

PROBE(C24_C08_zero_input_z)
{
    t_zero_input<cplx>();
}

PROBE(C24_C08_zero_input_f)
{
    t_zero_input<float>();
}

template <typename T> static void t_step()
{
    auto n = vf_n("n"), q = vf_n("q"), p = vf_n("p");
    vf_assume(n > 0 && q > 0 && p > 0);
    auto s = model<T>(n, q, p, T(1));
    VEC(T, x, "x", n);
    VEC(T, u, "u", q);
    auto r = control::simulate_step(s, x, u);
    vf_eq_n("states", r.first.size(), n);
    vf_eq_n("outputs", r.second.size(), p);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < p);
    vf::eq("next state", r.first[i], row(s.A, i, x) + row(s.B, i, u));
    vf::eq("output", r.second[j], row(s.C, j, x) + row(s.D, j, u));
    vf::eq("C06:state", x[i], vf::in<T>::at("x", i));
}

PROBE(C24_C02_C06_step_d)
{
    t_step<double>();
}

PROBE(C24_C02_C06_step_z)
{
    t_step<cplx>();
}

PROBE(C24_C02_C06_step_f)
{
    t_step<float>();
}

template <typename T> static void t_step_rejects()
{
    auto n = vf_n("n"), q = vf_n("q"), p = vf_n("p"), a = vf_n("a"), b = vf_n("b");
    vf_assume(n > 0 && q > 0 && p > 0 && a > 0 && b > 0);
    auto s = model<T>(n, q, p, T(1));
    VEC(T, x, "x", a);
    VEC(T, u, "u", b);
    vf_throws_iff("state and input sizes", a != n || b != q);
    (void)control::simulate_step(s, x, u);
}

PROBE(C24_C01_step_rejects_d)
{
    t_step_rejects<double>();
}

template <typename T> static void t_sim0()
{
    auto s = model<T>(2, 1, 2, T(0.5));
    VEC(T, x, "x", 2);
    std::vector<Vector<T>> u;
    auto r = control::simulate(s, u, T(3), x);
    vf_eq_n("times", std::get<0>(r).size(), 1);
    vf_eq_n("states", std::get<1>(r).size(), 1);
    vf_eq_n("outputs", std::get<2>(r).size(), 0);
    vf::eq("time", std::get<0>(r)[0], T(0));
    vf::eq("state 0", std::get<1>(r)[0][0], x[0]);
    vf::eq("state 1", std::get<1>(r)[0][1], x[1]);
}

PROBE(C24_C02_sim0_d)
{
    t_sim0<double>();
}

PROBE(C24_C02_sim0_f)
{
    t_sim0<float>();
}

template <typename T> static void t_sim1()
{
    auto n = vf_n("n"), q = vf_n("q"), p = vf_n("p");
    vf_assume(n > 0 && q > 0 && p > 0);
    auto s = model<T>(n, q, p, T(0.5));
    VEC(T, x, "x", n);
    VEC(T, a, "u", q);
    std::vector<Vector<T>> u(1, a);
    auto r = control::simulate(s, u, T(3), x);
    vf_eq_n("times", std::get<0>(r).size(), 2);
    vf_eq_n("states", std::get<1>(r).size(), 2);
    vf_eq_n("outputs", std::get<2>(r).size(), 1);
    vf::eq("time 0", std::get<0>(r)[0], T(0));
    vf::eq("time 1", std::get<0>(r)[1], T(0.5));
    vf_eq_n("state size", std::get<1>(r)[1].size(), n);
    vf_eq_n("output size", std::get<2>(r)[0].size(), p);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < p);
    vf::eq("state 0", std::get<1>(r)[0][i], x[i]);
    vf::eq("state 1", std::get<1>(r)[1][i], row(s.A, i, x) + row(s.B, i, a));
    vf::eq("output 0", std::get<2>(r)[0][j], row(s.C, j, x) + row(s.D, j, a));
}

PROBE(C24_C02_sim1_d)
{
    t_sim1<double>();
}

PROBE(C24_C02_sim1_f)
{
    t_sim1<float>();
}

template <typename T> static void t_sim3()
{
    auto s = model<T>(2, 1, 1, T(0.5));
    VEC(T, x, "x", 2);
    VEC(T, a, "a", 1);
    VEC(T, b, "b", 1);
    VEC(T, c, "c", 1);
    std::vector<Vector<T>> u;
    u.push_back(a);
    u.push_back(b);
    u.push_back(c);
    auto r = control::simulate(s, u, T(1.75), x);
    auto &t = std::get<0>(r);
    auto &X = std::get<1>(r);
    auto &Y = std::get<2>(r);
    vf_eq_n("times", t.size(), 4);
    vf_eq_n("states", X.size(), 4);
    vf_eq_n("outputs", Y.size(), 3);
    for (int k = 0; k < 4; ++k)
        vf::eq("time", t[k], T(0.5) * T(k));
    for (int k = 0; k < 2; ++k)
        vf::eq("first state", X[0][k], x[k]);
    for (int m = 0; m < 3; ++m) {
        for (int k = 0; k < 2; ++k)
            vf::eq("next state", X[m + 1][k], s.A(k, 0) * X[m][0] + s.A(k, 1) * X[m][1] + s.B(k, 0) * u[m][0]);
        vf::eq("output", Y[m][0], s.C(0, 0) * X[m][0] + s.C(0, 1) * X[m][1] + s.D(0, 0) * u[m][0]);
    }
    vf::eq("C06:initial state", x[0], vf::in<T>::at("x", 0));
    vf::eq("C06:input", u[1][0], b[0]);
}

PROBE(C24_C02_C06_sim3_d)
{
    t_sim3<double>();
}

PROBE(C24_C02_C06_sim3_f)
{
    t_sim3<float>();
}

template <typename T> static void t_sim_short()
{
    // more inputs than steps
    auto s = model<T>(1, 1, 1, T(0.25));
    VEC(T, x, "x", 1);
    VEC(T, a, "a", 1);
    std::vector<Vector<T>> u(4, a);
    auto r = control::simulate(s, u, T(0.625), x);
    vf_eq_n("times", std::get<0>(r).size(), 3);
    vf_eq_n("states", std::get<1>(r).size(), 3);
    vf_eq_n("outputs", std::get<2>(r).size(), 2);
    vf::eq("time 1", std::get<0>(r)[1], T(0.25));
    vf::eq("time 2", std::get<0>(r)[2], T(0.5));
}

PROBE(C24_C02_sim_short_d)
{
    t_sim_short<double>();
}

template <typename T> static void t_c2d()
{
    auto p = vf_n("p");
    vf_assume(p > 0);
    control::StateSpace<T> s = model<T>(1, 1, p, T(1));
    vf_assume(!(s.A(0, 0) == 0));
    vf_throws_only_if("singular system matrix", feq::approximately_equal_to_zero(s.A(0, 0)));
    auto d = control::c2d(s, vf_r("ts"));
    vf_eq_n("C rows", d.C.rows(), p);
    vf_eq_n("C cols", d.C.cols(), 1);
    vf_eq_n("D rows", d.D.rows(), p);
    vf_eq_n("D cols", d.D.cols(), 1);
    auto i = vf_n("i");
    vf_assume(i < p);
    vf::eq("C", d.C(i, 0), s.C(i, 0));
    vf::eq("D", d.D(i, 0), s.D(i, 0));
    vf::eq("sample time", d.sample_time, vf_r("ts"));
    vf_eq_n("A rows", d.A.rows(), 1);
    vf_eq_n("B cols", d.B.cols(), 1);
    vf::eq("A", d.A(0, 0), vf_in_d("E", 0));
    vf::eq("B", d.B(0, 0) * s.A(0, 0), (d.A(0, 0) - 1) * s.B(0, 0));
}

PROBE(C24_C02_c2d_d)
{
    t_c2d<double>();
}

template <typename T> static void t_c2d2()
{
    auto q = vf_n("q"), p = vf_n("p");
    vf_assume(p > 0 && q > 0);
    control::StateSpace<T> s = model<T>(2, q, p, T(1));
    auto det = s.A(0, 0) * s.A(1, 1) - s.A(0, 1) * s.A(1, 0);
    vf_throws_only_if("singular system matrix", feq::approximately_equal_to_zero(det));
    auto d = control::c2d(s, vf_r("ts"));
    vf_eq_n("C rows", d.C.rows(), p);
    vf_eq_n("C cols", d.C.cols(), 2);
    vf_eq_n("D rows", d.D.rows(), p);
    vf_eq_n("D cols", d.D.cols(), q);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < p && j < q);
    vf::eq("C", d.C(i, 1), s.C(i, 1));
    vf::eq("D", d.D(i, j), s.D(i, j));
    vf::eq("sample time", d.sample_time, vf_r("ts"));
    vf_eq_n("B cols", d.B.cols(), q);
    vf_eq_n("B rows", d.B.rows(), 2);
    vf_eq_n("A rows", d.A.rows(), 2);
    vf_eq_n("A cols", d.A.cols(), 2);
    vf::eq("A 0 0", d.A(0, 0), vf_in_d("E", 0));
    vf::eq("A 1 0", d.A(1, 0), vf_in_d("E", 2));
    vf_assume(!(det == 0));
    // A B_d = (A_d - I) B
    vf::eq("B 0", s.A(0, 0) * d.B(0, j) + s.A(0, 1) * d.B(1, j), (d.A(0, 0) - 1) * s.B(0, j) + d.A(0, 1) * s.B(1, j));
    vf::eq("B 1", s.A(1, 0) * d.B(0, j) + s.A(1, 1) * d.B(1, j), d.A(1, 0) * s.B(0, j) + (d.A(1, 1) - 1) * s.B(1, j));
    vf::eq("C06:system matrix", s.A(0, 1), vf_in_d("A", 1));
}

PROBE(C24_C02_C06_c2d2_d)
{
    t_c2d2<double>();
}

template <typename T> static void t_ctrb1()
{
    auto q = vf_n("q");
    vf_assume(q > 0);
    MAT(T, A, "A", 1, 1);
    MAT(T, B, "B", 1, q);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 1);
    vf_eq_n("cols", r.cols(), q);
    auto j = vf_n("j");
    vf_assume(j < q);
    vf::eq("B", r(0, j), B(0, j));
}

PROBE(C25_C02_C06_ctrb1_d)
{
    t_ctrb1<double>();
}

PROBE(C25_C02_C06_ctrb1_z)
{
    t_ctrb1<cplx>();
}

PROBE(C25_C02_C06_ctrb1_f)
{
    t_ctrb1<float>();
}

PROBE(C25_C02_C06_ctrb1_i)
{
    t_ctrb1<int>();
}

template <typename T> static void t_ctrb2()
{
    auto q = vf_n("q");
    vf_assume(q > 0);
    MAT(T, A, "A", 2, 2);
    MAT(T, B, "B", 2, q);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 2);
    vf_eq_n("cols", r.cols(), 2 * q);
    auto j = vf_n("j"), i = vf_n("i");
    vf_assume(j < q && i < 2);
    vf::eq("B", r(i, j), B(i, j));
    vf::eq("AB", r(i, q + j), A(i, 0) * B(0, j) + A(i, 1) * B(1, j));
}

PROBE(C25_C02_C06_ctrb2_d)
{
    t_ctrb2<double>();
}

PROBE(C25_C02_C06_ctrb2_z)
{
    t_ctrb2<cplx>();
}

PROBE(C25_C02_C06_ctrb2_f)
{
    t_ctrb2<float>();
}

PROBE(C25_C02_C06_ctrb2_i)
{
    t_ctrb2<int>();
}

template <typename T> static void t_ctrb3()
{
    MAT(T, A, "A", 3, 3);
    MAT(T, B, "B", 3, 2);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 3);
    vf_eq_n("cols", r.cols(), 6);
    auto AB = times(A, B), AAB = times(A, AB);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 2; ++j) {
            vf::eq("B", r(i, j), B(i, j));
            vf::eq("AB", r(i, 2 + j), AB(i, j));
            vf::eq("AAB", r(i, 4 + j), AAB(i, j));
        }
}

PROBE(C25_C02_C06_ctrb3_d)
{
    t_ctrb3<double>();
}

PROBE(C25_C02_C06_ctrb3_i)
{
    t_ctrb3<int>();
}

template <typename T> static void t_ctrb4_slow()
{
    MAT(T, A, "A", 4, 4);
    MAT(T, B, "B", 4, 1);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 4);
    vf_eq_n("cols", r.cols(), 4);
    auto B1 = times(A, B), B2 = times(A, B1), B3 = times(A, B2);
    for (int i = 0; i < 4; ++i) {
        vf::eq("B", r(i, 0), B(i, 0));
        vf::eq("AB", r(i, 1), B1(i, 0));
        vf::eq("AAB", r(i, 2), B2(i, 0));
        vf::eq("AAAB", r(i, 3), B3(i, 0));
    }
}

PROBE(C25_C02_ctrb4_slow_d)
{
    t_ctrb4_slow<double>();
}

template <typename T> static void t_ctrb6_chain()
{
    // six integrators
    Matrix<T> A(6, 6);
    for (int r = 0; r < 5; ++r)
        A(r, r + 1) = 2;
    MAT(T, B, "B", 6, 1);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 6);
    vf_eq_n("cols", r.cols(), 6);
    for (int i = 0; i < 6; ++i)
        for (int k = 0; k < 6; ++k)
            for (int j = 0; j < 1; ++j)
                vf::eq("element", r(i, k + j), i + k < 6 ? T(1 << k) * B(i + k, j) : T(0));
}

PROBE(C25_C02_ctrb6_chain_d)
{
    t_ctrb6_chain<double>();
}

template <typename T> static void t_obsv6_chain()
{
    Matrix<T> A(6, 6);
    for (int r = 0; r < 5; ++r)
        A(r, r + 1) = 2;
    MAT(T, C, "C", 1, 6);
    auto r = control::obsv<T>(A, C);
    vf_eq_n("rows", r.rows(), 6);
    vf_eq_n("cols", r.cols(), 6);
    for (int i = 0; i < 6; ++i)
        for (int k = 0; k < 6; ++k)
            for (int j = 0; j < 1; ++j)
                vf::eq("element", r(k + j, i), i >= k ? T(1 << k) * C(j, i - k) : T(0));
}

PROBE(C25_C02_obsv6_chain_d)
{
    t_obsv6_chain<double>();
}

template <typename T> static void t_ctrb_rejects()
{
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    vf_throws_iff("C01:shapes", A.rows() != A.cols() || A.rows() != B.rows());
    vf_keeps_m("C06:left", "A");
    vf_assume(A.rows() <= 1 || A.rows() != A.cols() || A.rows() != B.rows());
    (void)control::ctrb(A, B);
}

PROBE(C25_C01_C06_ctrb_rejects_d)
{
    t_ctrb_rejects<double>();
}

PROBE(C25_C01_C06_ctrb_rejects_z)
{
    t_ctrb_rejects<cplx>();
}

PROBE(C25_C01_C06_ctrb_rejects_i)
{
    t_ctrb_rejects<int>();
}

template <typename T> static void t_obsv1()
{
    auto q = vf_n("q");
    vf_assume(q > 0);
    MAT(T, A, "A", 1, 1);
    MAT(T, C, "C", q, 1);
    auto r = control::obsv<T>(A, C);
    vf_eq_n("rows", r.rows(), q);
    vf_eq_n("cols", r.cols(), 1);
    auto j = vf_n("j");
    vf_assume(j < q);
    vf::eq("C", r(j, 0), C(j, 0));
}

PROBE(C25_C02_C06_obsv1_d)
{
    t_obsv1<double>();
}

PROBE(C25_C02_C06_obsv1_z)
{
    t_obsv1<cplx>();
}

PROBE(C25_C02_C06_obsv1_f)
{
    t_obsv1<float>();
}

PROBE(C25_C02_C06_obsv1_i)
{
    t_obsv1<int>();
}

template <typename T> static void t_obsv2()
{
    auto q = vf_n("q");
    vf_assume(q > 0);
    MAT(T, A, "A", 2, 2);
    MAT(T, C, "C", q, 2);
    auto r = control::obsv<T>(A, C);
    vf_eq_n("rows", r.rows(), 2 * q);
    vf_eq_n("cols", r.cols(), 2);
    auto j = vf_n("j"), i = vf_n("i");
    vf_assume(j < q && i < 2);
    vf::eq("C", r(j, i), C(j, i));
    vf::eq("CA", r(q + j, i), C(j, 0) * A(0, i) + C(j, 1) * A(1, i));
}

PROBE(C25_C02_C06_obsv2_d)
{
    t_obsv2<double>();
}

PROBE(C25_C02_C06_obsv2_z)
{
    t_obsv2<cplx>();
}

PROBE(C25_C02_C06_obsv2_f)
{
    t_obsv2<float>();
}

PROBE(C25_C02_C06_obsv2_i)
{
    t_obsv2<int>();
}

template <typename T> static void t_obsv3()
{
    MAT(T, A, "A", 3, 3);
    MAT(T, C, "C", 2, 3);
    auto r = control::obsv<T>(A, C);
    vf_eq_n("rows", r.rows(), 6);
    vf_eq_n("cols", r.cols(), 3);
    auto CA = times(C, A), CAA = times(CA, A);
    for (int j = 0; j < 3; ++j)
        for (int i = 0; i < 2; ++i) {
            vf::eq("C", r(i, j), C(i, j));
            vf::eq("CA", r(2 + i, j), CA(i, j));
            vf::eq("CAA", r(4 + i, j), CAA(i, j));
        }
}

PROBE(C25_C02_C06_obsv3_d)
{
    t_obsv3<double>();
}

PROBE(C25_C02_C06_obsv3_i)
{
    t_obsv3<int>();
}

template <typename T> static void t_obsv4_slow()
{
    MAT(T, A, "A", 4, 4);
    MAT(T, C, "C", 1, 4);
    auto r = control::obsv<T>(A, C);
    vf_eq_n("rows", r.rows(), 4);
    vf_eq_n("cols", r.cols(), 4);
    auto B1 = times(C, A), B2 = times(B1, A), B3 = times(B2, A);
    for (int i = 0; i < 4; ++i) {
        vf::eq("C", r(0, i), C(0, i));
        vf::eq("CA", r(1, i), B1(0, i));
        vf::eq("CAA", r(2, i), B2(0, i));
        vf::eq("CAAA", r(3, i), B3(0, i));
    }
}

PROBE(C25_C02_obsv4_slow_d)
{
    t_obsv4_slow<double>();
}

template <typename T> static void t_obsv_rejects()
{
    auto &A = ABS(T, "A");
    auto &C = ABS(T, "C");
    vf_throws_iff("C01:shapes", A.rows() != A.cols() || A.rows() != C.cols());
    vf_keeps_m("C06:left", "A");
    vf_assume(A.rows() <= 1 || A.rows() != A.cols() || A.rows() != C.cols());
    (void)control::obsv(A, C);
}

PROBE(C25_C01_C06_obsv_rejects_d)
{
    t_obsv_rejects<double>();
}

PROBE(C25_C01_C06_obsv_rejects_z)
{
    t_obsv_rejects<cplx>();
}

PROBE(C25_C01_C06_obsv_rejects_i)
{
    t_obsv_rejects<int>();
}

template <typename T> static void t_ctrb_views()
{
    MAT(T, M, "M", 4, 5);
    auto A = utility::view(M, 1, 3, 1, 3);
    auto B = utility::view(M, 1, 3, 4, 5);
    auto r = control::ctrb<T>(A, B);
    vf_eq_n("rows", r.rows(), 2);
    vf_eq_n("cols", r.cols(), 2);
    for (int i = 0; i < 2; ++i) {
        vf::eq("B", r(i, 0), M(1 + i, 4));
        vf::eq("AB", r(i, 1), M(1 + i, 1) * M(1, 4) + M(1 + i, 2) * M(2, 4));
    }
    auto C = utility::view(M, 3, 4, 1, 3);
    auto o = control::obsv<T>(A, C);
    vf_eq_n("rows", o.rows(), 2);
    vf_eq_n("cols", o.cols(), 2);
    for (int i = 0; i < 2; ++i) {
        vf::eq("C", o(0, i), M(3, 1 + i));
        vf::eq("CA", o(1, i), M(3, 1) * M(1, 1 + i) + M(3, 2) * M(2, 1 + i));
    }
}

PROBE(C25_C13_ctrb_views_d)
{
    t_ctrb_views<double>();
}

template <typename T> static void t_poly_empty()
{
    Vector<T> a;
    auto c = control::poly(a);
    vf_eq_n("size", c.size(), 1);
    vf::eq("monic", c[0], T(1));
    Matrix<T> M;
    auto e = control::poly(static_cast<const MatrixBase<T> &>(M));
    vf_eq_n("size", e.size(), 1);
    vf::eq("monic", e[0], T(1));
}

PROBE(C25_poly_empty_d)
{
    t_poly_empty<double>();
}

PROBE(C25_poly_empty_z)
{
    t_poly_empty<cplx>();
}

PROBE(C25_poly_empty_f)
{
    t_poly_empty<float>();
}

PROBE(C25_poly_empty_i)
{
    t_poly_empty<int>();
}

template <typename T> static void t_poly1()
{
    VEC(T, a, "a", 1);
    auto c = control::poly(a);
    vf_eq_n("size", c.size(), 2);
    vf::eq("monic", c[0], T(1));
    vf::eq("constant", c[1], -a[0]);
}

PROBE(C25_C02_C06_poly1_d)
{
    t_poly1<double>();
}

PROBE(C25_C02_C06_poly1_z)
{
    t_poly1<cplx>();
}

PROBE(C25_C02_C06_poly1_f)
{
    t_poly1<float>();
}

PROBE(C25_C02_C06_poly1_i)
{
    t_poly1<int>();
}

template <typename T> static void t_poly2()
{
    VEC(T, a, "a", 2);
    auto c = control::poly(a);
    vf_eq_n("size", c.size(), 3);
    vf::eq("monic", c[0], T(1));
    vf::eq("sum", c[1], -(a[0] + a[1]));
    vf::eq("product", c[2], a[0] * a[1]);
}

PROBE(C25_C02_C06_poly2_d)
{
    t_poly2<double>();
}

PROBE(C25_C02_C06_poly2_z)
{
    t_poly2<cplx>();
}

PROBE(C25_C02_C06_poly2_f)
{
    t_poly2<float>();
}

PROBE(C25_C02_C06_poly2_i)
{
    t_poly2<int>();
}

template <typename T> static void t_poly3()
{
    VEC(T, a, "a", 3);
    auto c = control::poly(a);
    T x = vf::in<T>::at("x", 0);
    vf_eq_n("size", c.size(), 4);
    vf::eq("monic", c[0], T(1));
    vf::eq("product of factors", horner<T>(c, 3, x), prodroots<T>(a, 3, x));
    vf::eq("C06:roots", a[0], vf::in<T>::at("a", 0));
}

PROBE(C25_C02_C06_poly3_d)
{
    t_poly3<double>();
}

PROBE(C25_C02_C06_poly3_z)
{
    t_poly3<cplx>();
}

PROBE(C25_C02_C06_poly3_f)
{
    t_poly3<float>();
}

PROBE(C25_C02_C06_poly3_i)
{
    t_poly3<int>();
}

template <typename T> static void t_poly5()
{
    VEC(T, a, "a", 5);
    auto c = control::poly(a);
    T x = vf::in<T>::at("x", 0);
    vf_eq_n("size", c.size(), 6);
    vf::eq("monic", c[0], T(1));
    vf::eq("product of factors", horner<T>(c, 5, x), prodroots<T>(a, 5, x));
}

PROBE(C25_C02_C06_poly5_d)
{
    t_poly5<double>();
}

PROBE(C25_C02_C06_poly5_i)
{
    t_poly5<int>();
}

template <typename T> static void t_polyn()
{
    // in general
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    auto c = control::poly(a);
    vf_eq_n("size", c.size(), n + 1);
    vf::eq("monic", c[0], T(1));
}

PROBE(C25_C02_C08_polyn_d)
{
    t_polyn<double>();
}

PROBE(C25_C02_C08_polyn_z)
{
    t_polyn<cplx>();
}

PROBE(C25_C02_C08_polyn_f)
{
    t_polyn<float>();
}

PROBE(C25_C02_C08_polyn_i)
{
    t_polyn<int>();
}

template <typename T> static void t_polyrow()
{
    MAT(T, a, "a", 1, 3);
    auto c = control::poly(static_cast<const MatrixBase<T> &>(a));
    T x = vf::in<T>::at("x", 0);
    vf_eq_n("size", c.size(), 4);
    vf::eq("monic", c[0], T(1));
    vf::eq("product of factors", horner<T>(c, 3, x), prodroots<T>(a, 3, x));
}

PROBE(C25_C02_C06_polyrow_d)
{
    t_polyrow<double>();
}

PROBE(C25_C02_C06_polyrow_z)
{
    t_polyrow<cplx>();
}

PROBE(C25_C02_C06_polyrow_f)
{
    t_polyrow<float>();
}

PROBE(C25_C02_C06_polyrow_i)
{
    t_polyrow<int>();
}

template <typename T> static void t_polycol()
{
    MAT(T, a, "a", 3, 1);
    auto c = control::poly(static_cast<const MatrixBase<T> &>(a));
    T x = vf::in<T>::at("x", 0);
    vf_eq_n("size", c.size(), 4);
    vf::eq("monic", c[0], T(1));
    vf::eq("product of factors", horner<T>(c, 3, x), prodroots<T>(a, 3, x));
}

PROBE(C25_C02_C06_polycol_d)
{
    t_polycol<double>();
}

PROBE(C25_C02_C06_polycol_z)
{
    t_polycol<cplx>();
}

PROBE(C25_C02_C06_polycol_f)
{
    t_polycol<float>();
}

PROBE(C25_C02_C06_polycol_i)
{
    t_polycol<int>();
}

template <typename T> static void t_polyrow_n()
{
    auto n = vf_n("n");
    vf_assume(n > 0);
    MAT(T, a, "a", 1, n);
    auto c = control::poly(static_cast<const MatrixBase<T> &>(a));
    vf_eq_n("size", c.size(), n + 1);
    vf::eq("monic", c[0], T(1));
}

PROBE(C25_C02_C08_polyrow_n_d)
{
    t_polyrow_n<double>();
}

PROBE(C25_C02_C08_polyrow_n_i)
{
    t_polyrow_n<int>();
}

template <typename T> static void t_polyview()
{
    MAT(T, M, "M", 3, 4);
    auto a = utility::view(M, 0, 3, 2, 3);
    auto c = control::poly(static_cast<const MatrixBase<T> &>(a));
    vf_eq_n("size", c.size(), 4);
    vf::eq("monic", c[0], T(1));
    vf::eq("sum", c[1], -(M(0, 2) + M(1, 2) + M(2, 2)));
    vf::eq("product", c[3], -(M(0, 2) * M(1, 2) * M(2, 2)));
}

PROBE(C25_C13_polyview_d)
{
    t_polyview<double>();
}

template <typename T> static void t_polymat2()
{
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 2 && A.cols() == 2);
    auto c = control::poly(A);
    vf_eq_n("size", c.size(), 3);
    vf::eq("monic", c[0], T(1));
    vf::eq("trace", c[1], -(A(0, 0) + A(1, 1)));
    vf::eq("determinant", c[2], A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0));
}

PROBE(C25_C02_C06_polymat2_d)
{
    t_polymat2<double>();
}

template <typename T> static void t_polymat3()
{
    auto &A = ABS(T, "A");
    vf_assume(A.rows() == 3 && A.cols() == 3);
    auto c = control::poly(A);
    vf_eq_n("size", c.size(), 4);
    vf::eq("monic", c[0], T(1));
    vf::eq("trace", c[1], -(A(0, 0) + A(1, 1) + A(2, 2)));
    vf::eq("minors", c[2], A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) + A(0, 0) * A(2, 2) - A(0, 2) * A(2, 0) + A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1));
    vf::eq("determinant", c[3], -(A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0))));
}

PROBE(C25_C02_C06_polymat3_d)
{
    t_polymat3<double>();
}

template <typename T> static void t_polymat5()
{
    // the companion matrix of any polynomial
    MAT(T, A, "A", 5, 5);
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 5; ++c)
            A(r, c) = T(c == r + 1 ? 1 : 0);
    auto c = control::poly(A);
    vf_eq_n("size", c.size(), 6);
    vf::eq("monic", c[0], T(1));
    for (int k = 0; k < 5; ++k)
        vf::eq("coefficient", c[5 - k], -A(4, k));
}

PROBE(C25_C02_polymat5_d)
{
    t_polymat5<double>();
}

template <typename T> static void t_polymat_any()
{
    // of any order: searched for counterexamples with the determinant of x - A
    auto n = vf_n("n");
    vf_assume(n >= 2);
    MAT(T, A, "A", n, n);
    auto c = control::poly(A);
    vf_eq_n("coefficients", c.size(), n + 1);
    T x = vf_r("x"), s = 0, e = 0;
    for (size_t k = 0; k <= n; ++k)
        s = s * x + c[k];
    for (size_t r = 0; r < n; ++r)
        for (size_t k = 0; k < n; ++k)
            e += vf_det_entry(r, k, (r == k ? x : T(0)) - A(r, k));
    vf::eq("characteristic polynomial", s, vf_det(n, e));
}

PROBE(C25_C02_polymat_any_d)
{
    t_polymat_any<double>();
}

template <typename T> static void t_polymat_rejects()
{
    auto &A = ABS(T, "A");
    vf_assume(A.rows() != A.cols());
    vf_throws_iff("C01:square", A.size() != 0 && A.rows() != 1 && A.cols() != 1);
    vf_keeps_m("C06:operand", "A");
    (void)control::poly(A);
}

PROBE(C25_C01_C06_polymat_rejects_d)
{
    t_polymat_rejects<double>();
}

template <typename T> static void t_reduce_empty()
{
    Vector<T> a;
    auto c = control::polyreduce(a);
    vf_eq_n("size", c.size(), 1);
    vf::eq("zero", c[0], T(0));
}

PROBE(C25_C02_reduce_empty_d)
{
    t_reduce_empty<double>();
}

PROBE(C25_C02_reduce_empty_z)
{
    t_reduce_empty<cplx>();
}

PROBE(C25_C02_reduce_empty_f)
{
    t_reduce_empty<float>();
}

PROBE(C25_C02_reduce_empty_i)
{
    t_reduce_empty<int>();
}

template <typename T> static void t_reduce3()
{
    VEC(T, a, "a", 3);
    size_t lead = !(a[0] == T(0)) ? 0 : !(a[1] == T(0)) ? 1 : !(a[2] == T(0)) ? 2 : 3;
    auto c = control::polyreduce(a);
    vf_eq_n("size", c.size(), lead == 3 ? 1 : 3 - lead);
    vf_true("leading coefficient", lead == 3 || !(c[0] == T(0)));
    auto i = vf_n("i");
    vf_assume(lead < 3 && i < 3 - lead);
    vf::eq("coefficients", c[i], a[lead + i]);
    vf::eq("C06:input", a[i], vf::in<T>::at("a", i));
}

PROBE(C25_C02_C06_reduce3_d)
{
    t_reduce3<double>();
}

PROBE(C25_C02_C06_reduce3_z)
{
    t_reduce3<cplx>();
}

PROBE(C25_C02_C06_reduce3_f)
{
    t_reduce3<float>();
}

PROBE(C25_C02_C06_reduce3_i)
{
    t_reduce3<int>();
}

template <typename T> static void t_reduce_zero()
{
    auto n = vf_n("n");
    Vector<T> a(n, T(0));
    auto c = control::polyreduce(a);
    vf_eq_n("size", c.size(), 1);
    vf::eq("zero", c[0], T(0));
}

PROBE(C25_C02_reduce_zero_d)
{
    t_reduce_zero<double>();
}

PROBE(C25_C02_reduce_zero_z)
{
    t_reduce_zero<cplx>();
}

PROBE(C25_C02_reduce_zero_f)
{
    t_reduce_zero<float>();
}

PROBE(C25_C02_reduce_zero_i)
{
    t_reduce_zero<int>();
}

template <typename T> static void t_reduce_none()
{
    auto n = vf_n("n");
    vf_assume(n > 0);
    VEC(T, a, "a", n);
    vf_assume(!(a[0] == T(0)));
    auto c = control::polyreduce(a);
    vf_eq_n("size", c.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("coefficients", c[i], a[i]);
}

PROBE(C25_C02_C06_reduce_none_d)
{
    t_reduce_none<double>();
}

PROBE(C25_C02_C06_reduce_none_z)
{
    t_reduce_none<cplx>();
}

PROBE(C25_C02_C06_reduce_none_f)
{
    t_reduce_none<float>();
}

PROBE(C25_C02_C06_reduce_none_i)
{
    t_reduce_none<int>();
}

template <typename T> static void t_reduce_n()
{
    // the first k coefficients are zero and the next one is not
    auto n = vf_n("n"), k = vf_n("k");
    vf_assume(k < n);
    VEC(T, a, "a", n);
    for (size_t j = 0; j < k; ++j)
        a[j] = T(0);
    vf_assume(!(a[k] == T(0)));
    auto c = control::polyreduce(a);
    vf_eq_n("size", c.size(), n - k);
    auto i = vf_n("i");
    vf_assume(i < n - k);
    vf::eq("coefficients", c[i], a[k + i]);
}

PROBE(C25_C02_C06_reduce_n_d)
{
    t_reduce_n<double>();
}

PROBE(C25_C02_C06_reduce_n_i)
{
    t_reduce_n<int>();
}

template <typename T> static void t_acker_rejects()
{
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    auto &P = ABS(T, "P");
    vf_throws_iff("C01:shapes", true);
    vf_keeps_m("C06:left", "A");
    vf_assume(A.rows() != A.cols() || B.cols() != 1 || A.rows() != B.rows() || P.rows() != 1 || P.cols() != A.rows());
    (void)control::acker(A, B, P);
}

PROBE(C25_C27_C01_C06_acker_rejects_d)
{
    t_acker_rejects<double>();
}

template <typename T> static void t_acker_rejects1()
{
    // one state
    MAT(T, A, "A", 1, 1);
    auto br = vf_n("br"), bc = vf_n("bc"), pr = vf_n("pr"), pc = vf_n("pc");
    vf_assume(br <= 2 && bc <= 2 && pr <= 2 && pc <= 2);
    MAT(T, B, "B", br, bc);
    MAT(T, P, "P", pr, pc);
    vf_throws_iff("C01:shapes", true);
    vf_assume(br != 1 || bc != 1 || pr != 1 || pc != 1);
    (void)control::acker(A, B, P);
}

PROBE(C25_C01_acker_rejects1_d)
{
    t_acker_rejects1<double>();
}

template <typename T> static void t_acker_rejects2()
{
    // two states, a list of poles of any shape
    MAT(T, A, "A", 2, 2);
    MAT(T, B, "B", 2, 1);
    auto pr = vf_n("pr"), pc = vf_n("pc");
    vf_assume(pr <= 3 && pc <= 3);
    MAT(T, P, "P", pr, pc);
    vf_throws_iff("C01:shapes", true);
    vf_assume(pr != 1 || pc != 2);
    (void)control::acker(A, B, P);
}

PROBE(C25_C01_acker_rejects2_d)
{
    t_acker_rejects2<double>();
}

template <typename T> static void t_acker1()
{
    // one state: the gain moves the only eigenvalue
    MAT(T, A, "A", 1, 1);
    MAT(T, B, "B", 1, 1);
    MAT(T, P, "P", 1, 1);
    vf_throws_only_if("unreachable", B(0, 0) == 0 || malg::feq::approximately_equal_to_zero(B(0, 0)));
    auto k = control::acker<T>(A, B, P);
    vf_eq_n("rows", k.rows(), 1);
    vf_eq_n("cols", k.cols(), 1);
    vf::eq("closed loop", A(0, 0) - B(0, 0) * k(0, 0), P(0, 0));
}

PROBE(C25_C02_acker1_d)
{
    t_acker1<double>();
}

template <typename T> static void t_acker2()
{
    // two states: the closed loop has the sum and the product of the requested poles
    MAT(T, A, "A", 2, 2);
    MAT(T, B, "B", 2, 1);
    MAT(T, P, "P", 1, 2);
    T det = B[0] * (A(1, 0) * B[0] + A(1, 1) * B[1]) - (A(0, 0) * B[0] + A(0, 1) * B[1]) * B[1];
    vf_throws_iff("unreachable systems rejected", std::abs(det) <= malg::feq::tolerance() * std::abs(det));
    vf_assume(det != 0);
    auto k = control::acker<T>(A, B, P);
    vf_eq_n("rows", k.rows(), 1);
    vf_eq_n("cols", k.cols(), 2);
    T m00 = A(0, 0) - B[0] * k[0], m01 = A(0, 1) - B[0] * k[1], m10 = A(1, 0) - B[1] * k[0], m11 = A(1, 1) - B[1] * k[1];
    vf::eq("sum of the poles", m00 + m11, P[0] + P[1]);
    vf::eq("product of the poles", m00 * m11 - m01 * m10, P[0] * P[1]);
}

PROBE(C36_C25_C02_acker2_d)
{
    t_acker2<double>();
}

template <typename T> static void t_acker3_chain()
{
    // three states in a chain, the input at the end
    MAT(T, A, "A", 3, 3);
    A(0, 0) = A(0, 2) = A(1, 0) = 0;
    Matrix<T> B(3, 1);
    B[2] = 1;
    MAT(T, P, "P", 1, 3);
    vf_assume(!malg::feq::approximately_equal_to_zero(linalg::determinant(control::ctrb<T>(A, B))));
    vf_assume(linalg::determinant(control::ctrb<T>(A, B)) != 0);
    auto k = control::acker<T>(A, B, P);
    T m[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            m[i][j] = A(i, j) - B[i] * k[j];
    vf::eq("sum of the poles", m[0][0] + m[1][1] + m[2][2], P[0] + P[1] + P[2]);
    vf::eq("pairs of poles", m[0][0] * m[1][1] - m[0][1] * m[1][0] + m[0][0] * m[2][2] - m[0][2] * m[2][0] + m[1][1] * m[2][2] - m[1][2] * m[2][1],
           P[0] * P[1] + P[0] * P[2] + P[1] * P[2]);
    vf::eq("product of the poles", m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]),
           P[0] * P[1] * P[2]);
}

PROBE(C36_C25_C02_acker3_chain_d)
{
    t_acker3_chain<double>();
}

template <typename T> static void t_acker4_chain()
{
    // four integrators: the gains are the coefficients
    Matrix<T> A(4, 4), B(4, 1);
    A(0, 1) = A(1, 2) = A(2, 3) = 1;
    B[3] = 1;
    MAT(T, P, "P", 1, 4);
    vf_assume(feq::tolerance() < 1);
    auto k = control::acker<T>(A, B, P);
    vf_eq_n("rows", k.rows(), 1);
    vf_eq_n("columns", k.cols(), 4);
    vf::eq("product", k[0], P[0] * P[1] * P[2] * P[3]);
    vf::eq("triples", k[1], -(P[0] * P[1] * P[2] + P[0] * P[1] * P[3] + P[0] * P[2] * P[3] + P[1] * P[2] * P[3]));
    vf::eq("pairs", k[2], P[0] * P[1] + P[0] * P[2] + P[0] * P[3] + P[1] * P[2] + P[1] * P[3] + P[2] * P[3]);
    vf::eq("sum", k[3], -(P[0] + P[1] + P[2] + P[3]));
}

PROBE(C36_C25_C02_acker4_chain_d)
{
    t_acker4_chain<double>();
}

template <typename T> static void t_acker5_chain()
{
    // five integrators: the gains are the coefficients
    Matrix<T> A(5, 5), B(5, 1);
    for (int r = 0; r < 4; ++r)
        A(r, r + 1) = 1;
    B[4] = 1;
    MAT(T, P, "P", 1, 5);
    vf_assume(feq::tolerance() < 1);
    auto k = control::acker<T>(A, B, P);
    vf_eq_n("rows", k.rows(), 1);
    vf_eq_n("columns", k.cols(), 5);
    auto c = control::poly(P);
    for (int i = 0; i < 5; ++i)
        vf::eq("coefficient", k[i], c[5 - i]);
}

PROBE(C36_C25_C02_acker5_chain_d)
{
    t_acker5_chain<double>();
}

template <typename T> static void t_acker_unreachable()
{
    // the input does not reach the second state
    Matrix<T> A(2, 2), B(2, 1);
    A(0, 0) = vf_r("a");
    A(1, 1) = vf_r("b");
    B[0] = vf_r("c");
    MAT(T, P, "P", 1, 2);
    vf_throws_iff("unreachable systems rejected", true);
    (void)control::acker<T>(A, B, P);
}

PROBE(C36_C25_C02_acker_unreachable_d)
{
    t_acker_unreachable<double>();
}
