// Element-wise functions (C19), arithmetic of mixed complex and real numbers (C20), approximate
// comparison (C30).
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include "malg/feq.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
namespace feq = malg::feq;
typedef std::complex<float> cplxf;
template <typename T> struct any;
template <> struct any<double> { static double get(const char *n) { return vf_r(n); } };
template <> struct any<float> { static float get(const char *n) { return vf_rf(n); } };
template <> struct any<int> { static int get(const char *n) { return vf_i(n); } };
template <> struct any<cplx> { static cplx get(const char *n) { return cplx(vf_in_d(n, 0), vf_in_d(n, 1)); } };
template <> struct any<cplxf> { static cplxf get(const char *n) { return cplxf(vf_in_f(n, 0), vf_in_f(n, 1)); } };
template <typename T> struct under { typedef T type; };
template <typename T> struct under<std::complex<T>> { typedef T type; };
template <typename R, typename T> static std::complex<R> up(T x) { return std::complex<R>(static_cast<R>(x), R(0)); }
template <typename R, typename T> static std::complex<R> up(std::complex<T> x) { return std::complex<R>(static_cast<R>(x.real()), static_cast<R>(x.imag())); }

//// fun_m C19_C02_C06 d z f i
    auto &A = ABS(T, "A");
    auto R = malg::element_wise_function(A, [](const T &x) { return x * x + x; });
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), A(i, j) * A(i, j) + A(i, j));

//// fun_opaque C19_C02_C06 d
    auto &A = ABS(T, "A");
    auto R = malg::element_wise_function(A, [](T x) { return vf_f1(x); });
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j"), n = vf_n("n"), k = vf_n("k");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), vf_f1(A(i, j)));
    VEC(T, a, "a", n);
    auto r = malg::element_wise_function(a, [](T x) { return vf_f1(x); });
    vf_eq_n("size", r.size(), n);
    vf_assume(k < n);
    vf::eq("element of the vector", r[k], vf_f1(a[k]));

//// fun_view C19_C13_C02_C06 d z i
    auto n = vf_n("n"), m = vf_n("m"), r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1"), i = vf_n("i"), j = vf_n("j");
    MAT(T, M, "M", n, m);
    vf_assume(r0 < r1 && c0 < c1 && r1 <= n && c1 <= m);
    auto v = utility::view(M, r0, r1, c0, c1);
    auto R = malg::element_wise_function(v, [](const T &x) { return x * x + x; });
    vf_eq_n("rows", R.rows(), r1 - r0);
    vf_eq_n("columns", R.cols(), c1 - c0);
    vf_assume(i < r1 - r0 && j < c1 - c0);
    T x = M(r0 + i, c0 + j);
    vf::eq("element", R(i, j), x * x + x);

//// fun_v C19_C02_C06 d z f i
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto r = malg::element_wise_function(ca, [](const T &x) { return x * x + x; });
    vf_eq_n("size", r.size(), n);
    vf_assume(k < n);
    vf::eq("element", r[k], a[k] * a[k] + a[k]);

//// bin_m C19_C01_C02_C06 dd zz id dz
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = malg::element_wise_binary_function(A, B, [](const T &x, const U &y) { return x * y - x; });
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), A(i, j) * B(i, j) - A(i, j));

//// bin_opaque C19_C01_C02_C06 d
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = malg::element_wise_binary_function(A, B, [](T x, T y) { return vf_f2(x, y); });
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), vf_f2(A(i, j), B(i, j)));

//// bin_v C19_C01_C02_C06 dd zz id dz
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k");
    VEC(T, a, "a", n);
    VEC(U, b, "b", m);
    vf_throws_iff("C01:size", n != m);
    auto r = malg::element_wise_binary_function(a, b, [](const T &x, const U &y) { return x * y - x; });
    vf_eq_n("size", r.size(), n);
    vf_assume(k < n);
    vf::eq("element", r[k], a[k] * b[k] - a[k]);

//// parts_m C19_C02_C06 z c
    auto &A = ABS(T, "A");
    auto R = malg::real(A);
    auto I = malg::imag(A);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    vf_eq_n("rows of the imaginary part", I.rows(), A.rows());
    vf_eq_n("columns of the imaginary part", I.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("real part", std::real(R(i, j)), A(i, j).real());
    vf::eq("imaginary part", std::real(I(i, j)), A(i, j).imag());
    vf::eq("nothing else", std::imag(R(i, j)), typename under<T>::type(0));
    vf::eq("nothing else beside the imaginary part", std::imag(I(i, j)), typename under<T>::type(0));

//// parts_v C19_C02_C06 z
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto R = malg::real(ca);
    auto I = malg::imag(ca);
    vf_eq_n("size", R.size(), n);
    vf_eq_n("size of the imaginary part", I.size(), n);
    vf_assume(k < n);
    vf::eq("real part", std::real(R[k]), a[k].real());
    vf::eq("imaginary part", std::real(I[k]), a[k].imag());
    vf::eq("nothing else", std::imag(R[k]), typename under<T>::type(0));
    vf::eq("nothing else beside the imaginary part", std::imag(I[k]), typename under<T>::type(0));

//// abs_m C19_C02_C06 d z f i
    auto &A = ABS(T, "A");
    auto R = malg::abs(A);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", std::real(R(i, j)), std::real(T(std::abs(A(i, j)))));
    vf::eq("nothing else", std::imag(R(i, j)), 0 * std::imag(R(i, j)));

//// abs_v C19_C02_C06 d z f i
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto R = malg::abs(ca);
    vf_eq_n("size", R.size(), n);
    vf_assume(k < n);
    vf::eq("element", std::real(R[k]), std::real(T(std::abs(a[k]))));

//// sign_m C19_C02_C06 d f i
    auto &A = ABS(T, "A");
    auto R = malg::sign(A);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", static_cast<T>(R(i, j)), A(i, j) > 0 ? T(1) : T(-1));

//// sign_z C19_C02_C06 z
    auto &A = ABS(T, "A");
    auto R = malg::sign(A);
    auto i = vf_n("i"), j = vf_n("j"), n = vf_n("n"), k = vf_n("k");
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    VEC(T, a, "a", n);
    auto r = malg::sign(a);
    vf_eq_n("size", r.size(), n);
    vf_assume(i < A.rows() && j < A.cols() && k < n);
    vf::eq("real part", R(i, j).real(), A(i, j).real() > 0 ? 1. : -1.);
    vf::eq("imaginary part", R(i, j).imag(), A(i, j).imag() > 0 ? 1. : -1.);
    vf::eq("real part of the vector", r[k].real(), a[k].real() > 0 ? 1. : -1.);
    vf::eq("imaginary part of the vector", r[k].imag(), a[k].imag() > 0 ? 1. : -1.);

//// sign_v C19_C02_C06 d f i
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto R = malg::sign(ca);
    vf_eq_n("size", R.size(), n);
    vf_assume(k < n);
    vf::eq("element", static_cast<T>(R[k]), a[k] > 0 ? T(1) : T(-1));

//// product C19_C01_C02_C06_C07 dd zz id dz zd df
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = malg::element_wise_product(A, B);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), A(i, j) * B(i, j));

//// combination C19_C01_C02_C06_C07 dd zz id dz di
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    auto a = vf_r("a"), b = vf_r("b");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = malg::linear_combination(A, a, B, b);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), A(i, j) * a + B(i, j) * b);

//// combination_z C19_C02_C06_C07 d i z
    auto &A = ABS(T, "A");
    auto &B = ABS(T, "B");
    auto a = any<cplx>::get("a"), b = any<cplx>::get("b");
    vf_assume(A.rows() == B.rows() && A.cols() == B.cols());
    auto R = malg::linear_combination(A, a, B, b);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), cplx(A(i, j)) * a + cplx(B(i, j)) * b);

//// herm C19_C02_C06 z
    auto &A = ABS(T, "A");
    auto R = linalg::hermitian_transpose(A);
    auto S = linalg::conjugate_transpose(A);
    vf_eq_n("rows", R.rows(), A.cols());
    vf_eq_n("columns", R.cols(), A.rows());
    vf_eq_n("rows of the conjugate", S.rows(), A.cols());
    vf_eq_n("columns of the conjugate", S.cols(), A.rows());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("real part", R(j, i).real(), A(i, j).real());
    vf::eq("imaginary part", R(j, i).imag(), -A(i, j).imag());
    vf::eq("real part of the conjugate", S(j, i).real(), A(i, j).real());
    vf::eq("imaginary part of the conjugate", S(j, i).imag(), -A(i, j).imag());

//// exp C19_C02_C06 d f
    auto &A = ABS(T, "A");
    auto R = linalg::exp(A);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), std::exp(A(i, j)));

//// exp_z C19_C02_C06 z
    auto &A = ABS(T, "A");
    auto R = linalg::exp(A);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("columns", R.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", R(i, j), std::exp(A(i, j)));

//// empty_fun C19_C02_C08 d z
    auto r = vf_n("r"), c = vf_n("c");
    Matrix<T> A(r, c);
    vf_assume(r * c == 0);
    auto R = malg::abs(A);
    vf_eq_n("rows", R.rows(), r);
    vf_eq_n("columns", R.cols(), c);
    vf_true("empty", R.empty());

//// cc C20 zz zc cz cc
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<typename under<T>::type, typename under<U>::type>::type R;
    auto x = up<R>(a);
    auto y = up<R>(b);
    auto s = ::operator+(a, b);
    auto d = ::operator-(a, b);
    auto p = ::operator*(a, b);
    static_assert(std::is_same<decltype(s), std::complex<R>>::value && std::is_same<decltype(d), std::complex<R>>::value && std::is_same<decltype(p), std::complex<R>>::value, "");
    vf::eq("sum, real part", s.real(), x.real() + y.real());
    vf::eq("sum, imaginary part", s.imag(), x.imag() + y.imag());
    vf::eq("difference, real part", d.real(), x.real() - y.real());
    vf::eq("difference, imaginary part", d.imag(), x.imag() - y.imag());
    vf::eq("product, real part", p.real(), x.real() * y.real() - x.imag() * y.imag());
    vf::eq("product, imaginary part", p.imag(), x.real() * y.imag() + x.imag() * y.real());

//// cc_div C20 zz zc cz cc
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<typename under<T>::type, typename under<U>::type>::type R;
    auto x = up<R>(a);
    auto y = up<R>(b);
    R n = y.real() * y.real() + y.imag() * y.imag();
    vf_assume(!(n == R(0)));
    auto q = ::operator/(a, b);
    static_assert(std::is_same<decltype(q), std::complex<R>>::value, "");
    vf::eq("quotient, real part", q.real(), (x.real() * y.real() + x.imag() * y.imag()) / n);
    vf::eq("quotient, imaginary part", q.imag(), (x.imag() * y.real() - x.real() * y.imag()) / n);

//// cr C20 zd zi zf cf ci cd
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<typename under<T>::type, U>::type R;
    auto x = up<R>(a);
    R y = static_cast<R>(b);
    auto s = ::operator+(a, b);
    auto d = ::operator-(a, b);
    auto p = ::operator*(a, b);
    static_assert(std::is_same<decltype(s), std::complex<R>>::value && std::is_same<decltype(d), std::complex<R>>::value && std::is_same<decltype(p), std::complex<R>>::value, "");
    vf::eq("sum, real part", s.real(), x.real() + y);
    vf::eq("sum, imaginary part", s.imag(), x.imag());
    vf::eq("difference, real part", d.real(), x.real() - y);
    vf::eq("difference, imaginary part", d.imag(), x.imag());
    vf::eq("product, real part", p.real(), x.real() * y);
    vf::eq("product, imaginary part", p.imag(), x.imag() * y);
    vf_assume(!(y == R(0)));
    auto q = ::operator/(a, b);
    static_assert(std::is_same<decltype(q), std::complex<R>>::value, "");
    vf::eq("quotient, real part", q.real(), x.real() / y);
    vf::eq("quotient, imaginary part", q.imag(), x.imag() / y);

//// rc C20 dz iz fz fc ic dc
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<T, typename under<U>::type>::type R;
    R x = static_cast<R>(a);
    auto y = up<R>(b);
    auto s = ::operator+(a, b);
    auto d = ::operator-(a, b);
    auto p = ::operator*(a, b);
    static_assert(std::is_same<decltype(s), std::complex<R>>::value && std::is_same<decltype(d), std::complex<R>>::value && std::is_same<decltype(p), std::complex<R>>::value, "");
    vf::eq("sum, real part", s.real(), x + y.real());
    vf::eq("sum, imaginary part", s.imag(), y.imag());
    vf::eq("difference, real part", d.real(), x - y.real());
    vf::eq("difference, imaginary part", d.imag(), -y.imag());
    vf::eq("product, real part", p.real(), x * y.real());
    vf::eq("product, imaginary part", p.imag(), x * y.imag());

//// rc_div C20 dz iz fz fc ic dc
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<T, typename under<U>::type>::type R;
    R x = static_cast<R>(a);
    auto y = up<R>(b);
    R n = y.real() * y.real() + y.imag() * y.imag();
    vf_assume(!(n == R(0)));
    auto q = ::operator/(a, b);
    static_assert(std::is_same<decltype(q), std::complex<R>>::value, "");
    vf::eq("quotient, real part", q.real(), (x * y.real()) / n);
    vf::eq("quotient, imaginary part", q.imag(), -(x * y.imag()) / n);

//// feq C30 dd ff df fd di
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    typedef typename std::common_type<T, U>::type R;
    R x = static_cast<R>(a), y = static_cast<R>(b);
    R d = x < y ? y - x : x - y;
    R ma = x < 0 ? -x : x, mb = y < 0 ? -y : y;
    R m = ma < mb ? mb : ma;
    double tol = feq::tolerance();
    vf_assume(tol >= 0);
    bool want = d <= tol * m;
    vf_eq_b("within the tolerance", feq::approximately_equal(a, b), want);
    vf_eq_b("the order does not matter", feq::approximately_equal(b, a), want);
    vf_eq_b("less or equal", feq::approximately_lesser_than_equal(a, b), x < y || want);
    vf_eq_b("greater or equal", feq::approximately_greater_than_equal(a, b), x > y || want);

//// feq_z C30 zz
    T a = any<T>::get("a");
    U b = any<U>::get("b");
    double tol = feq::tolerance();
    vf_assume(tol >= 0);
    double ma = std::abs(a), mb = std::abs(b);
    bool want = std::abs(a - b) <= tol * (ma < mb ? mb : ma);
    vf_eq_b("within the tolerance", feq::approximately_equal(a, b), want);
    vf_eq_b("the order does not matter", feq::approximately_equal(b, a), std::abs(b - a) <= tol * (ma < mb ? mb : ma));

//// feq_same C30 d f i
    T a = any<T>::get("a");
    vf_assume(feq::tolerance() >= 0);
    vf_true("equal to itself", feq::approximately_equal(a, a));
    vf_true("less or equal to itself", feq::approximately_lesser_than_equal(a, a));
    vf_true("greater or equal to itself", feq::approximately_greater_than_equal(a, a));

//// feq_zero C30 d f z
    T a = any<T>::get("a");
    double tol = feq::tolerance();
    vf_assume(tol >= 0);
    vf_eq_b("zero rule", feq::approximately_equal_to_zero(a), std::abs(a) <= tol * std::abs(a));
    vf_true("exact zero", feq::approximately_equal_to_zero(T(0)));

//// feq_set C30
    auto t = vf_r("t"), x = vf_r("x"), y = vf_r("y");
    vf_assume(t >= 0);
    feq::tolerance() = t;
    vf::eq("the tolerance is what was set", feq::tolerance(), t);
    double d = std::abs(x - y), m = std::abs(x) < std::abs(y) ? std::abs(y) : std::abs(x);
    vf_eq_b("it is the one used", feq::approximately_equal(x, y), d <= t * m);
