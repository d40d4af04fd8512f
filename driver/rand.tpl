// Random builders (C35): every element is a draw from the requested distribution. The distributions
// are replaced by stand-ins whose draws are an arbitrary function of the bounds they were given.
#include "vf.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iterator>
#include <numeric>
#include <random>
namespace std
{
template <typename T> static T vf_drawn(T a, T b) { return static_cast<T>(vf_f2(static_cast<double>(a), static_cast<double>(b))); }
template <typename T> struct vf_distribution {
    using result_type = T;
    struct param_type {
        T a, b;
        explicit param_type(T a = 0, T b = 1) : a(a), b(b) {}
    };
    param_type p;
    vf_distribution() {}
    explicit vf_distribution(T a, T b = 1) : p(a, b) {}
    explicit vf_distribution(const param_type &p) : p(p) {}
    T a() const { return p.a; }
    T b() const { return p.b; }
    T min() const { return p.a; }
    T max() const { return p.b; }
    param_type param() const { return p; }
    void param(const param_type &q) { p = q; }
    void reset() {}
    template <typename G> T operator()(G &) { return vf_drawn<T>(p.a, p.b); }
    template <typename G> T operator()(G &, const param_type &q) { return vf_drawn<T>(q.a, q.b); }
};
template <typename T = double> struct vf_real_distribution : vf_distribution<T> { using vf_distribution<T>::vf_distribution; };
template <typename T = int> struct vf_int_distribution : vf_distribution<T> { using vf_distribution<T>::vf_distribution; };
struct vf_random_device {
    using result_type = unsigned;
    unsigned operator()() { return static_cast<unsigned>(vf_n("random")); }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0U; }
    double entropy() const { return 0; }
};
struct vf_engine {
    using result_type = unsigned;
    explicit vf_engine(unsigned = 0) {}
    template <typename S> explicit vf_engine(S &) {}
    void seed(unsigned = 0) {}
    void discard(unsigned long long) {}
    unsigned operator()() { return static_cast<unsigned>(vf_n("random")); }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0U; }
};
} // namespace std
#define uniform_real_distribution vf_real_distribution
#define uniform_int_distribution vf_int_distribution
#define random_device vf_random_device
#define mt19937 vf_engine
#define mt19937_64 vf_engine
#define minstd_rand vf_engine
#define default_random_engine vf_engine
#include "vfm.hpp"
#undef uniform_real_distribution
#undef uniform_int_distribution
#undef random_device
#undef mt19937
#undef mt19937_64
#undef minstd_rand
#undef default_random_engine
namespace utility = malg::utility;

//// rand_matrix C35_C02_C08 d f
    size_t n = vf_n("n"), m = vf_n("m");
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    auto R = utility::rand_matrix<T>(n, m, a, b);
    static_assert(std::is_same_v<decltype(R), Matrix<T>>);
    vf::stored(R);
    vf_eq_n("rows", R.rows(), n);
    vf_eq_n("columns", R.cols(), m);
    size_t i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("draw between the bounds", R(i, j), std::vf_drawn<T>(a, b));

//// rand_matrix_int C35_C02_C08 i l
    size_t n = vf_n("n"), m = vf_n("m");
    auto R = utility::rand_matrix<T>(n, m, 3, 9);
    static_assert(std::is_same_v<decltype(R), Matrix<T>>);
    vf::stored(R);
    vf_eq_n("rows", R.rows(), n);
    vf_eq_n("columns", R.cols(), m);
    size_t i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_true("draw between the bounds", R(i, j) == std::vf_drawn<T>(3, 9));

//// rand_matrix_complex C35_C02_C08 z c
    typedef typename T::value_type V;
    size_t n = vf_n("n"), m = vf_n("m");
    V a = vf::in<V>::at("a", 0), b = vf::in<V>::at("b", 0);
    auto R = utility::rand_matrix<T>(n, m, a, b);
    static_assert(std::is_same_v<decltype(R), Matrix<T>>);
    vf::stored(R);
    vf_eq_n("rows", R.rows(), n);
    vf_eq_n("columns", R.cols(), m);
    size_t i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("draw between the bounds", R(i, j), T(std::vf_drawn<V>(a, b), std::vf_drawn<V>(a, b)));

//// rand_vector C35_C02_C08 d f
    size_t n = vf_n("n");
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    auto R = utility::rand_vector<T>(n, a, b);
    static_assert(std::is_same_v<decltype(R), Vector<T>>);
    vf::stored(R);
    vf_eq_n("size", R.size(), n);
    size_t i = vf_n("i");
    vf_assume(i < n);
    vf::eq("draw between the bounds", R[i], std::vf_drawn<T>(a, b));

//// rand_vector_int C35_C02_C08 i l
    size_t n = vf_n("n");
    auto R = utility::rand_vector<T>(n, 3, 9);
    vf::stored(R);
    vf_eq_n("size", R.size(), n);
    size_t i = vf_n("i");
    vf_assume(i < n);
    vf_true("draw between the bounds", R[i] == std::vf_drawn<T>(3, 9));

//// rand_vector_complex C35_C02_C08 z c
    typedef typename T::value_type V;
    size_t n = vf_n("n");
    V a = vf::in<V>::at("a", 0), b = vf::in<V>::at("b", 0);
    auto R = utility::rand_vector<T>(n, a, b);
    vf::stored(R);
    vf_eq_n("size", R.size(), n);
    size_t i = vf_n("i");
    vf_assume(i < n);
    vf::eq("draw between the bounds", R[i], T(std::vf_drawn<V>(a, b), std::vf_drawn<V>(a, b)));
