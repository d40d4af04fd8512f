template <class T> void use_io()
{
    const malg::Matrix<T> a(2, 2);
    const malg::Vector<T> v(2);
    malg::Matrix<T> m;
    malg::Vector<T> w;
    const auto kv    = a({ 0, 1 }, { 0, 1 });
    std::ostream &o  = obj<std::ostream>();
    std::ofstream &f = obj<std::ofstream>();
    std::ifstream &i = obj<std::ifstream>();
    o << a << v << kv << malg::Range{ 0, 1 };
    f << a;
    f << v;
    f << kv;
    i >> m;
    i >> w;
    SAME(malg::dump_vector("v", v), std::string);
    sink(malg::dump_vector("v", v), malg::dump_matrix("a", a), malg::to_matlab("v", v), malg::to_matlab("a", a), malg::to_cpp("v", "double", v), malg::to_cpp("a", "double", a));
    sink(malg::dump_matrix("a", kv), malg::to_matlab("a", kv), malg::to_cpp("a", "double", kv));
}
FORALL(use_io)
template <class T> void use_io_ss()
{
    std::ostream &o = obj<std::ostream>();
    o << obj<const malg::control::StateSpace<T>>();
    o << obj<const malg::control::DiscreteStateSpace<T>>();
}
FORFLT(use_io_ss)
