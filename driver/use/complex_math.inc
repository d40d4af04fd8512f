template <class R, class A, class B> void use_cm()
{
    A a = val<A>();
    B b = val<B>();
    SAME(a + b, R);
    SAME(a - b, R);
    SAME(a * b, R);
    SAME(a / b, R);
    SAME(b + a, R);
    SAME(b - a, R);
    SAME(b * a, R);
    SAME(b / a, R);
    sink(a + b, a - b, a * b, a / b, b + a, b - a, b * a, b / a);
}
void use_complex_math()
{
    use_cm<cd, cd, cf>();
    use_cm<cd, cd, int>();
    use_cm<cd, cd, float>();
    use_cm<cd, cf, double>();
    use_cm<cf, cf, int>();
    use_cm<cd, cd, long>();
    use_cm<cd, cd, cd>();
    use_cm<cf, cf, cf>();
    use_cm<cd, cd, double>();
    use_cm<cf, cf, float>();
    use_cm<cd, const cd, cf>();
    use_cm<cd, const cd, const int>();
}
