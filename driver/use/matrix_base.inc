template <class T> void use_matrix_base()
{
    const malg::MatrixBase<T> &c = obj<malg::MatrixBase<T>>();
    malg::MatrixBase<T> &m       = obj<malg::MatrixBase<T>>();
    SAME(c.rows(), std::size_t);
    SAME(c.cols(), std::size_t);
    SAME(c.size(), std::size_t);
    SAME(c.empty(), bool);
    SAME(c.data(), const T *);
    SAME(m.data(), T *);
    static_assert(std::is_same_v<decltype(c(0, 0)), const T &> && std::is_same_v<decltype(m(0, 0)), T &>);
    static_assert(std::is_same_v<decltype(c[0]), const T &> && std::is_same_v<decltype(m[0]), T &>);
    static_assert(std::is_same_v<decltype(c.at(0, 0)), const T &> && std::is_same_v<decltype(m.at(0, 0)), T &>);
    sink(c.rows(), c.cols(), c.size(), c.empty(), c.data(), m.data(), c(0, 0), m(0, 0), c[0], m[0], c.at(0, 0), m.at(0, 0));
    // Only derived classes can be copied, and they are destroyed through the base.
    static_assert(std::has_virtual_destructor_v<malg::MatrixBase<T>>);
    static_assert(std::is_abstract_v<malg::MatrixBase<T>>);
}
FORALL(use_matrix_base)
