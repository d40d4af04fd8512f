namespace ml = malg::linalg;
template <class T> void use_linalg_all()
{
    using M = malg::Matrix<T>;
    const M a(2, 2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    SAME(ml::transpose(a), M);
    SAME(ml::transpose(kv), M);
    SAME(ml::powm(a, 3), M);
    SAME(ml::powm(kv, 3), M);
    SAME(ml::cofactor(a, 0, 0), M);
    SAME(ml::determinant(a), T);
    SAME(ml::determinant(kv), T);
    SAME(ml::adjoint(a), M);
    sink(ml::transpose(a), ml::transpose(kv), ml::powm(a, 3), ml::powm(kv, 3), ml::cofactor(a, 0, 0), ml::cofactor(kv, 0, 0), ml::determinant(a), ml::determinant(kv), ml::adjoint(a), ml::adjoint(kv));
}
FORALL(use_linalg_all)
template <class T> void use_linalg_field()
{
    // The inverse is computed with double precision at least.
    using R = malg::extract_common_type_t<T, double>;
    using M = malg::Matrix<T>;
    const M a(2, 2);
    const malg::Vector<T> v(2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    SAME(ml::inverse(a), malg::Matrix<R>);
    SAME(ml::div(a, a), malg::Matrix<R>);
    SAME(ml::solve(a, v), malg::Vector<R>);
    sink(ml::inverse(a), ml::inverse(kv), ml::div(a, a), ml::div(kv, a), ml::solve(a, v), ml::lu_decomposition(a), ml::lu_decomposition(kv));
    auto [l, u] = ml::lu_decomposition(a);
    SAME(l, M);
    SAME(u, M);
    sink(l, u, malg::utility::is_invertible(a), malg::utility::is_linearly_dependent(a), malg::utility::is_linearly_independent(a), malg::utility::is_invertible(kv));
}
FORFC(use_linalg_field)
template <class T> void use_linalg_float()
{
    using M = malg::Matrix<T>;
    const M a(2, 2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    SAME(ml::exp(a), M);
    SAME(ml::expm(a, 1e-05), M);
    auto [q, r] = ml::qr_decomposition(a);
    SAME(q, malg::Matrix<double>);
    SAME(r, malg::Matrix<double>);
    sink(q, r, ml::exp(a), ml::exp(kv), ml::expm(a, 1e-05), ml::expm(kv, 1e-05), ml::factorial(T(3)), ml::factorial(3));
    const malg::Matrix<std::complex<T>> c(2, 2);
    const auto kc = c({ 0, 1 }, { 0, 1 });
    SAME(ml::hermitian_transpose(c), malg::Matrix<std::complex<T>>);
    SAME(ml::conjugate_transpose(c), malg::Matrix<std::complex<T>>);
    sink(ml::hermitian_transpose(c), ml::conjugate_transpose(c), ml::hermitian_transpose(kc), ml::conjugate_transpose(kc));
}
FORFLT(use_linalg_float)
