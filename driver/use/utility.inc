namespace mu = malg::utility;
template <class T> void use_utility()
{
    using M = malg::Matrix<T>;
    using V = malg::Vector<T>;
    malg::Matrix<T> m(2, 2);
    const M a(2, 2);
    const V v(2);
    const malg::MatrixBase<T> &b = a;
    const auto kv                = a({ 0, 1 }, { 0, 1 });
    auto vw                      = m({ 0, 1 }, { 0, 1 });
    SAME(mu::eye<T>(2, 2, T(1)), M);
    SAME(mu::identity<T>(2), M);
    SAME((mu::zeros<T>(2, 2)), M);
    SAME(mu::zeros<T>(2), V);
    SAME((mu::ones<T>(2, 2)), M);
    SAME(mu::ones<T>(2), V);
    SAME(mu::diag(v), M);
    SAME(mu::diag(b), V);
    SAME(mu::to_matrix(v, true), M);
    SAME(mu::to_vector(a), V);
    SAME(mu::ravel(b), V);
    sink(mu::eye<T>(2, 2, T(1)), mu::identity<T>(2), mu::zeros<T>(2, 2), mu::zeros<T>(2), mu::ones<T>(2, 2), mu::ones<T>(2));
    sink(mu::diag(v), mu::diag(a), mu::diag(kv), mu::to_matrix(v, true), mu::to_vector(a), mu::ravel(a), mu::ravel(kv));
    SAME(mu::vstack(a, a), M);
    SAME(mu::hstack(a, a), M);
    SAME(mu::vstack(a, v), M);
    SAME(mu::hstack(a, v), M);
    SAME(mu::vstack(kv, b), M);
    SAME(mu::hstack(kv, b), M);
    SAME(mu::concatenate(v, v), V);
    sink(mu::vstack(a, a), mu::vstack(a, v), mu::hstack(a, a), mu::hstack(a, v), mu::vstack(kv, b), mu::hstack(kv, b), mu::concatenate(v, v));
    SAME(mu::extract(b, 0, 1, 0, 1), M);
    SAME(mu::extract_column(b, 0), V);
    SAME(mu::extract_row(b, 0), V);
    sink(mu::extract(a, 0, 1, 0, 1), mu::extract_column(a, 0), mu::extract_row(a, 0), mu::extract(kv, 0, 1, 0, 1), mu::extract_column(kv, 0), mu::extract_row(kv, 0));
    mu::swap_rows(m, 0, 1);
    mu::swap_cols(m, 0, 1);
    mu::swap_rows(vw, 0, 0);
    mu::swap_cols(vw, 0, 0);
    sink(mu::is_square(a), mu::is_column_vector(a), mu::is_row_vector(a), mu::is_symmetric(a), mu::is_skew_symmetric(a), mu::is_diagonal(a), mu::is_zero(a), mu::is_constant(a));
    sink(mu::is_identity(a), mu::is_orthogonal(a), mu::is_lower_triangular(a), mu::is_upper_triangular(a));
    sink(mu::is_square(kv), mu::is_column_vector(kv), mu::is_row_vector(kv), mu::is_symmetric(kv), mu::is_skew_symmetric(kv), mu::is_diagonal(kv), mu::is_zero(kv), mu::is_constant(kv));
    sink(mu::is_identity(kv), mu::is_orthogonal(kv), mu::is_lower_triangular(kv), mu::is_upper_triangular(kv));
    sink(mu::reshape(m, 1, 4), mu::resize(m, 3, 3), mu::remove_row(m, 0), mu::remove_column(m, 0));
    sink(mu::view(m), mu::view(a), mu::row(m, 0), mu::row(a, 0), mu::col(m, 0), mu::col(a, 0), mu::view(vw), mu::row(vw, 0), mu::col(vw, 0));
    SAME(mu::flatnonzero(a), std::vector<std::size_t>);
    SAME(mu::find(a), malg::Matrix<std::size_t>);
    sink(mu::flatnonzero(a), mu::find(a), mu::find(a, 2), mu::find(a, 2, false));
}
FORALL(use_utility)
template <class T> void use_utility_real()
{
    const malg::Matrix<T> a(2, 2);
    const malg::Vector<T> v(2);
    sink(mu::compare(a, a), mu::compare(v, v), mu::all_close(a, a), mu::all_close(v, v), mu::basis<T>());
    static_assert(std::is_same_v<decltype(mu::compare(a, a)), std::int64_t>);
}
FORREAL(use_utility_real)
template <class T> void use_utility_float()
{
    SAME(mu::linspace<T>(T(0), T(1), 5), malg::Vector<T>);
    SAME(mu::logspace<T>(T(0), T(1), 5), malg::Vector<T>);
    sink(mu::linspace<T>(T(0), T(1), 5), mu::logspace<T>(T(0), T(1), 5, T(2)));
    sink(mu::rand_matrix<T>(2, 2, T(0), T(1)), mu::rand_vector<T>(2, T(0), T(1)));
}
FORFLT(use_utility_float)
void use_utility_rand()
{
    sink(mu::rand_matrix<int>(2, 2, 0, 9), mu::rand_vector<int>(2, 0, 9));
}
template <class R, class A, class B> void use_utility_mixed()
{
    const malg::Matrix<A> a(2, 2);
    const malg::Matrix<B> b(2, 2);
    const malg::Vector<A> v(2);
    const malg::Vector<B> w(2);
    SAME(mu::vstack(a, b), malg::Matrix<R>);
    SAME(mu::hstack(a, b), malg::Matrix<R>);
    SAME(mu::vstack(a, w), malg::Matrix<R>);
    SAME(mu::hstack(a, w), malg::Matrix<R>);
    SAME(mu::concatenate(v, w), malg::Vector<R>);
    sink(mu::vstack(a, b), mu::hstack(a, b), mu::vstack(a, w), mu::hstack(a, w), mu::concatenate(v, w));
}
template void use_utility_mixed<double, double, int>();
template void use_utility_mixed<double, int, double>();
template void use_utility_mixed<double, float, double>();
template void use_utility_mixed<cd, cd, double>();
template void use_utility_mixed<cd, double, cd>();
template void use_utility_mixed<cd, cd, cf>();
