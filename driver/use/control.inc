namespace mc = malg::control;
template class malg::control::StateSpace<double>;
template class malg::control::StateSpace<float>;
template class malg::control::DiscreteStateSpace<double>;
template class malg::control::DiscreteStateSpace<float>;
template <class T> void use_control()
{
    using M = malg::Matrix<T>;
    using V = malg::Vector<T>;
    const M a(2, 2);
    const V v(2);
    const auto kv = a({ 0, 1 }, { 0, 1 });
    const mc::StateSpace<T> s(a, a, a, a);
    mc::StateSpace<T> s0;
    mc::DiscreteStateSpace<T> d0;
    auto d = mc::c2d(s, T(1));
    SAME(d, mc::DiscreteStateSpace<T>);
    SAME(mc::ctrb(a, a), M);
    SAME(mc::obsv(a, a), M);
    SAME(mc::poly(v), V);
    SAME(mc::polyreduce(v), V);
    sink(d, mc::simulate_step(d, v, v), mc::ctrb(a, a), mc::obsv(a, a), mc::ctrb(kv, kv), mc::obsv(kv, kv), mc::poly(v), mc::polyreduce(v), mc::poly(a), mc::poly(kv), mc::acker(a, a, a));
    sink(mc::generate_input_zero(s), mc::generate_state_zero(s));
}
FORFLT(use_control)
