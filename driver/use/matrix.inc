template class malg::Matrix<double>;
template class malg::Matrix<float>;
template class malg::Matrix<int>;
template class malg::Matrix<long>;
template class malg::Matrix<unsigned>;
template class malg::Matrix<cd>;
template class malg::Matrix<cf>;
template <class T> void use_matrix()
{
    using M = malg::Matrix<T>;
    M a, b(2, 2), c(2, 2, T(1)), d(1, 2, { T(1), T(2) }), e(1, 2, std::vector<T>{ T(1), T(2) }), f({ { T(1), T(2) }, { T(3), T(4) } });
    const M &k = c;
    const malg::MatrixBase<T> &base = c;
    M g(k), h(std::move(b)), i(base);
    a = k;
    a = std::move(h);
    a = base;
    a = { { T(1) }, { T(2) } };
    malg::Matrix<cd> w(k);
    malg::Matrix<cd> u(base);
    w = k;
    w = base;
    static_assert(std::is_copy_constructible_v<M> && std::is_move_constructible_v<M> && std::is_copy_assignable_v<M> && std::is_move_assignable_v<M>);
    a.reshape(1, 2).resize(3, 3);
    for (auto &x : a) sink(x);
    for (const auto &x : k) sink(x);
    sink(a.at(0, 0), k.at(0, 0), a(0, 0), k(0, 0), a[0], k[0], a.rows(), a.cols(), a.size(), a.empty(), a.data(), k.data());
}
FORALL(use_matrix)
