template class malg::View<malg::Matrix<double>>;
template class malg::View<malg::Matrix<int>>;
template class malg::View<malg::Matrix<cd>>;
template class malg::View<malg::MatrixBase<double>>;
template class malg::CofactorView<malg::Matrix<double>>;
template class malg::CofactorView<malg::Matrix<cd>>;
template <class T> void use_view()
{
    using M = malg::Matrix<T>;
    M a(3, 3);
    const M &k = a;
    auto v  = a({ 0, 1 }, { 0, 2 });
    auto kv = k({ 0, 1 }, malg::Range::all());
    static_assert(std::is_same_v<decltype(v(0, 0)), T &>);
    static_assert(std::is_same_v<decltype(kv(0, 0)), const T &> || std::is_same_v<decltype(kv(0, 0)), const T &>);
    malg::View w(&a);
    malg::View x(&a, 0, 1, 0, 1);
    malg::View y(&k, 0, 1, 0, 1);
    malg::View z(&v, 0, 1, 0, 1);
    v = k;
    v = w;
    v = kv;
    v = { { T(1) } };
    z = x;
    M m(v), n(z);
    m = v;
    m = w;
    malg::CofactorView c(&a, 1, 1);
    malg::CofactorView ck(&k, 1, 1);
    malg::CofactorView cv(&v, 0, 0);
    M p(c), q(ck), r(cv);
    sink(v.rows(), v.cols(), v.size(), v(0, 0), v[0], v.at(0, 0), kv(0, 0), kv[0], kv.at(0, 0), c(0, 0), c[0], c.at(0, 0), ck(0, 0), ck[0], c.rows(), c.cols(), c.size());
}
FORALL(use_view)
