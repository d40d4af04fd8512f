template <class R, class A, class B> void use_math_mixed()
{
    const malg::Matrix<A> a(2, 2);
    const malg::Matrix<B> b(2, 2);
    const malg::Vector<A> v(2);
    const malg::Vector<B> w(2);
    const malg::MatrixBase<A> &ba = a;
    const malg::MatrixBase<B> &bb = b;
    A x = val<A>();
    B y = val<B>();
    using M = malg::Matrix<R>;
    using V = malg::Vector<R>;
    SAME(a + b, M);
    SAME(a - b, M);
    SAME(a * b, M);
    SAME(ba + bb, M);
    SAME(ba - bb, M);
    SAME(ba * bb, M);
    SAME(a + y, M);
    SAME(a - y, M);
    SAME(a * y, M);
    SAME(a / y, M);
    SAME(x * b, M);
    SAME(v + w, V);
    SAME(v - w, V);
    SAME(v * w, V);
    SAME(v + y, V);
    SAME(v - y, V);
    SAME(v * y, V);
    SAME(v / y, V);
    SAME(x * w, V);
    SAME(a * w, V);
    SAME(malg::dot(a, w), V);
    SAME(malg::dot(v, w), R);
    SAME(malg::element_wise_product(a, b), M);
    sink(a + b, a - b, a * b, ba + bb, ba - bb, ba * bb, a + y, a - y, a * y, a / y, x * b, v + w, v - w, v * w, v + y, v - y, v * y, v / y, x * w, a * w);
    sink(malg::dot(a, w), malg::dot(v, w), malg::element_wise_product(a, b), malg::linear_combination(a, x, b, y));
    malg::Matrix<R> r(2, 2);
    malg::Vector<R> s(2);
    R t = val<R>();
    r += a, r += b, r -= a, r -= b, r *= a, r *= b, r += t, r -= t, r *= t, r /= t;
    s += v, s += w, s -= v, s -= w, s += t, s -= t, s *= t, s /= t;
    auto vw = r({ 0, 1 }, { 0, 1 });
    vw += a, vw -= b, vw += t, vw -= t, vw *= t, vw /= t;
    SAME(vw + b, M);
    SAME(vw * b, M);
    sink(vw + b, vw - b, vw * b);
    // Equality of complex and integer elements is not provided.
    if constexpr (!(malg::is_complex_v<R> && (std::is_integral_v<A> || std::is_integral_v<B>))) {
        sink(a == b, a != b, v == w, v != w, ba == bb, ba != bb, a == y, a != y, v == y, v != y, vw == b, vw != b);
    }
}
template <class A, class B> void use_math_order()
{
    const malg::Matrix<A> a(2, 2);
    const malg::Matrix<B> b(2, 2);
    B y = val<B>();
    sink(a < b, a <= b, a > b, a >= b, a < y, a <= y, a > y, a >= y);
}
template <class T> void use_math()
{
    const malg::Matrix<T> a(2, 2);
    const malg::Vector<T> v(2);
    malg::Matrix<T> m(2, 2);
    auto vw       = m({ 0, 1 }, { 0, 1 });
    const auto kv = a({ 0, 1 }, { 0, 1 });
    use_math_mixed<T, T, T>();
    auto f = [](const T &x) { return x; };
    auto g = [](const T &x, const T &y) { return x + y; };
    SAME(malg::element_wise_function(a, f), malg::Matrix<T>);
    SAME(malg::element_wise_function(v, f), malg::Vector<T>);
    SAME(malg::element_wise_function(kv, f), malg::Matrix<T>);
    sink(malg::element_wise_function(a, f), malg::element_wise_function(v, f), malg::element_wise_function(kv, f));
    sink(malg::element_wise_binary_function(a, a, g), malg::element_wise_binary_function(v, v, g), malg::element_wise_binary_function(vw, kv, g));
    sink(malg::abs(a), malg::abs(v), malg::abs(kv), malg::sign(a), malg::sign(v), malg::sign(kv));
    SAME(malg::sum(v), T);
    SAME(malg::trace(a), T);
    sink(malg::sum(v), malg::trace(a), malg::trace(kv), malg::projection(v, v), malg::vector_length(a, 0), malg::vector_length(kv, 0));
    sink(malg::all(a), malg::all(v), malg::any(a), malg::any(v), malg::all(kv), malg::any(kv));
    sink(malg::square_norm(v), malg::square_norm(a), malg::square_norm(kv), malg::infinity_norm(v), malg::infinity_norm(a), malg::infinity_norm(kv));
}
FORALL(use_math)
template <class T> void use_math_real()
{
    const malg::Matrix<T> a(2, 2);
    const malg::Vector<T> v(2);
    use_math_order<T, T>();
    sink(malg::min(a), malg::min(v), malg::max(a), malg::max(v));
}
FORREAL(use_math_real)
template <class T> void use_math_complex()
{
    const malg::Matrix<std::complex<T>> a(2, 2);
    const malg::Vector<std::complex<T>> v(2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    sink(malg::real(a), malg::imag(a), malg::real(kv), malg::imag(kv), malg::real(v), malg::imag(v));
}
template void use_math_complex<double>();
template void use_math_complex<float>();
template void use_math_mixed<double, double, int>();
template void use_math_mixed<double, int, double>();
template void use_math_mixed<double, float, double>();
template void use_math_mixed<double, double, float>();
template void use_math_mixed<float, int, float>();
template void use_math_mixed<float, float, int>();
template void use_math_mixed<long, int, long>();
template void use_math_mixed<cd, cd, double>();
template void use_math_mixed<cd, double, cd>();
template void use_math_mixed<cd, cd, cf>();
template void use_math_mixed<cd, cf, cd>();
template void use_math_mixed<cd, cf, double>();
template void use_math_mixed<cd, double, cf>();
template void use_math_mixed<cd, cd, int>();
template void use_math_mixed<cf, int, cf>();
template void use_math_order<int, double>();
template void use_math_order<double, int>();
template void use_math_order<double, float>();
template <class T> void use_math_sub()
{
    const malg::Matrix<T> a(2, 2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    sink(malg::sub_norm(a), malg::sub_norm(kv));
}
FORFC(use_math_sub)
void use_math_log()
{
    sink(malg::log2_ceil(obj<const malg::Matrix<double>>()), malg::log2_ceil(obj<const malg::Matrix<float>>()));
}
