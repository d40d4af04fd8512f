template <class T, class U> void use_feq2()
{
    T a = val<T>();
    U b = val<U>();
    static_assert(std::is_same_v<decltype(malg::feq::approximately_equal(a, b)), bool>);
    sink(malg::feq::approximately_equal(a, b));
}
template <class T> void use_feq()
{
    use_feq2<T, T>();
    use_feq2<T, double>();
    use_feq2<double, T>();
    use_feq2<T, float>();
    T a = val<T>();
    sink(malg::feq::approximately_lesser_than_equal(a, a), malg::feq::approximately_greater_than_equal(a, a));
    sink(malg::feq::approximately_equal_to_zero(a));
    malg::feq::tolerance() = 1e-03;
}
FORFLT(use_feq)
template <class T> void use_feq_complex()
{
    use_feq2<T, T>();
    sink(malg::feq::approximately_equal_to_zero(val<T>()));
}
template void use_feq_complex<cd>();
template void use_feq_complex<cf>();
