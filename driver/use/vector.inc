template class malg::Vector<double>;
template class malg::Vector<float>;
template class malg::Vector<int>;
template class malg::Vector<long>;
template class malg::Vector<unsigned>;
template class malg::Vector<cd>;
template class malg::Vector<cf>;
template <class T> void use_vector()
{
    using V = malg::Vector<T>;
    V a, b(3), c(3, T(1)), d({ T(1), T(2) }), e(a), f(std::move(b)), g(2, { T(1), T(2) });
    const V &k = c;
    sink(malg::Vector<cd>(k));
    static_assert(std::is_same_v<decltype(k[0]), const T &> && std::is_same_v<decltype(c[0]), T &>);
    static_assert(std::is_copy_constructible_v<V> && std::is_move_constructible_v<V> && std::is_copy_assignable_v<V> && std::is_move_assignable_v<V>);
    a = c;
    a = std::move(c);
    malg::Vector<cd> w;
    w = a;
    a.resize(4);
    a.resize(e);
    for (auto &x : a) sink(x);
    for (const auto &x : k) sink(x);
    sink(a.data(), k.data(), a.size(), a.empty(), a.begin(), a.end(), k.begin(), k.end(), k.cbegin(), k.cend());
}
FORALL(use_vector)
