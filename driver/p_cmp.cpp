// Written by tools/gen_arith.py from cmp.inc
#include "vfm.hpp"
#include "malg/feq.hpp"

#define BIN(op) [](auto &x, auto &y) { return x op y; }

template <typename T> inline T tmax(T a, T b) { return a < b ? b : a; }
inline double mag(double x) { return x < 0 ? -x : x; }

/// The documented approximate equality of two real numbers.
inline bool close(double a, double b) { return mag(a - b) <= malg::feq::tolerance() * tmax(mag(a), mag(b)); }

// What each comparison means for two elements.
inline bool ref_eq(int a, int b) { return a == b; }
inline bool ref_eq(double a, double b) { return close(a, b); }
inline bool ref_eq(double a, int b) { return close(a, b); }
inline bool ref_eq(int a, double b) { return close(a, b); }
inline bool ref_eq(const cplx &a, const cplx &b) { return close(a.real(), b.real()) && close(a.imag(), b.imag()); }
template <typename A, typename B> inline bool ref_ne(const A &a, const B &b) { return !ref_eq(a, b); }
template <typename A, typename B> inline bool ref_lt(const A &a, const B &b) { return a < b; }
template <typename A, typename B> inline bool ref_le(const A &a, const B &b) { return !(b < a); }
template <typename A, typename B> inline bool ref_gt(const A &a, const B &b) { return b < a; }
template <typename A, typename B> inline bool ref_ge(const A &a, const B &b) { return !(a < b); }

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_mat(Op op, Ref ref)
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_keeps_m("C01:left operand kept", "A");
    vf_keeps_m("C01:right operand kept", "B");
    vf_throws_iff("C01:shape", A.rows() != B.rows() || A.cols() != B.cols());
    auto R = op(A, B);
    static_assert(std::is_same_v<typename decltype(R)::value_type, bool>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf_eq_b("element", R[i], ref(A[i], B[i]));
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", B[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void mat_sca(Op op, Ref ref)
{
    auto &A = ABS(A_t, "A");
    const B_t b = vf::in<B_t>::at("b", 0);
    auto R = op(A, b);
    static_assert(std::is_same_v<typename decltype(R)::value_type, bool>);
    vf_eq_n("rows", R.rows(), A.rows());
    vf_eq_n("cols", R.cols(), A.cols());
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf_eq_b("element", R[i], ref(A[i], b));
    vf::eq("C06:left operand unchanged", A[i], vf::in<A_t>::at("A", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_vec(Op op, Ref ref)
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(A_t, a, "A", n);
    VEC(B_t, b, "B", m);
    vf_keeps("C01:left operand kept", a.data(), "A");
    vf_keeps("C01:right operand kept", b.data(), "B");
    vf_throws_iff("C01:size", n != m);
    const Vector<A_t> &ca = a;
    const Vector<B_t> &cb = b;
    auto R = op(ca, cb);
    static_assert(std::is_same_v<typename decltype(R)::value_type, bool>);
    vf_eq_n("size", R.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_b("element", R[i], ref(vf::in<A_t>::at("A", i), vf::in<B_t>::at("B", i)));
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
    vf::eq("C06:right operand unchanged", b[i], vf::in<B_t>::at("B", i));
}

template <typename A_t, typename B_t, typename Op, typename Ref>
inline void vec_sca(Op op, Ref ref)
{
    auto n = vf_n("n");
    VEC(A_t, a, "A", n);
    const B_t b = vf::in<B_t>::at("b", 0);
    const Vector<A_t> &ca = a;
    auto R = op(ca, b);
    static_assert(std::is_same_v<typename decltype(R)::value_type, bool>);
    vf_eq_n("size", R.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_b("element", R[i], ref(vf::in<A_t>::at("A", i), b));
    vf::eq("C06:left operand unchanged", a[i], vf::in<A_t>::at("A", i));
}

/// Opposite comparisons answer oppositely.
template <typename A_t, typename B_t, typename Op, typename Op2>
inline void opposite(Op op, Op2 op2)
{
    auto &A = ABS(A_t, "A");
    auto &B = ABS(B_t, "B");
    vf_assume(A.rows() == B.rows() && A.cols() == B.cols());
    auto P = op(A, B);
    auto Q = op2(A, B);
    auto i = vf_n("i");
    vf_assume(i < A.size());
    vf_eq_b("complement", P[i], !Q[i]);
}

PROBE(C05_C01_C06_mm_eq_dd)
{
    mat_mat<double, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_ms_eq_dd)
{
    mat_sca<double, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_vv_eq_dd)
{
    vec_vec<double, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_vs_eq_dd)
{
    vec_sca<double, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_mm_eq_ii)
{
    mat_mat<int, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_ms_eq_ii)
{
    mat_sca<int, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_vv_eq_ii)
{
    vec_vec<int, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_vs_eq_ii)
{
    vec_sca<int, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_mm_eq_di)
{
    mat_mat<double, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_ms_eq_di)
{
    mat_sca<double, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_vv_eq_di)
{
    vec_vec<double, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_vs_eq_di)
{
    vec_sca<double, int>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_mm_eq_id)
{
    mat_mat<int, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_ms_eq_id)
{
    mat_sca<int, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_vv_eq_id)
{
    vec_vec<int, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_vs_eq_id)
{
    vec_sca<int, double>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_mm_eq_zz)
{
    mat_mat<cplx, cplx>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_ms_eq_zz)
{
    mat_sca<cplx, cplx>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_vv_eq_zz)
{
    vec_vec<cplx, cplx>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C06_vs_eq_zz)
{
    vec_sca<cplx, cplx>(BIN(==), [](auto x, auto y) { return ref_eq(x, y); });
}

PROBE(C05_C01_C06_mm_ne_dd)
{
    mat_mat<double, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_ms_ne_dd)
{
    mat_sca<double, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_vv_ne_dd)
{
    vec_vec<double, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_vs_ne_dd)
{
    vec_sca<double, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_mm_ne_ii)
{
    mat_mat<int, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_ms_ne_ii)
{
    mat_sca<int, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_vv_ne_ii)
{
    vec_vec<int, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_vs_ne_ii)
{
    vec_sca<int, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_mm_ne_di)
{
    mat_mat<double, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_ms_ne_di)
{
    mat_sca<double, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_vv_ne_di)
{
    vec_vec<double, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_vs_ne_di)
{
    vec_sca<double, int>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_mm_ne_id)
{
    mat_mat<int, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_ms_ne_id)
{
    mat_sca<int, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_vv_ne_id)
{
    vec_vec<int, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_vs_ne_id)
{
    vec_sca<int, double>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_mm_ne_zz)
{
    mat_mat<cplx, cplx>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_ms_ne_zz)
{
    mat_sca<cplx, cplx>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_vv_ne_zz)
{
    vec_vec<cplx, cplx>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C06_vs_ne_zz)
{
    vec_sca<cplx, cplx>(BIN(!=), [](auto x, auto y) { return ref_ne(x, y); });
}

PROBE(C05_C01_C06_mm_lt_dd)
{
    mat_mat<double, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_dd)
{
    mat_sca<double, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_lt_ii)
{
    mat_mat<int, int>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_ii)
{
    mat_sca<int, int>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_lt_di)
{
    mat_mat<double, int>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_di)
{
    mat_sca<double, int>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_lt_id)
{
    mat_mat<int, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_id)
{
    mat_sca<int, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_lt_ff)
{
    mat_mat<float, float>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_ff)
{
    mat_sca<float, float>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_lt_fd)
{
    mat_mat<float, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C06_ms_lt_fd)
{
    mat_sca<float, double>(BIN(<), [](auto x, auto y) { return ref_lt(x, y); });
}

PROBE(C05_C01_C06_mm_le_dd)
{
    mat_mat<double, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_dd)
{
    mat_sca<double, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_le_ii)
{
    mat_mat<int, int>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_ii)
{
    mat_sca<int, int>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_le_di)
{
    mat_mat<double, int>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_di)
{
    mat_sca<double, int>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_le_id)
{
    mat_mat<int, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_id)
{
    mat_sca<int, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_le_ff)
{
    mat_mat<float, float>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_ff)
{
    mat_sca<float, float>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_le_fd)
{
    mat_mat<float, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C06_ms_le_fd)
{
    mat_sca<float, double>(BIN(<=), [](auto x, auto y) { return ref_le(x, y); });
}

PROBE(C05_C01_C06_mm_gt_dd)
{
    mat_mat<double, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_dd)
{
    mat_sca<double, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_gt_ii)
{
    mat_mat<int, int>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_ii)
{
    mat_sca<int, int>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_gt_di)
{
    mat_mat<double, int>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_di)
{
    mat_sca<double, int>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_gt_id)
{
    mat_mat<int, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_id)
{
    mat_sca<int, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_gt_ff)
{
    mat_mat<float, float>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_ff)
{
    mat_sca<float, float>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_gt_fd)
{
    mat_mat<float, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C06_ms_gt_fd)
{
    mat_sca<float, double>(BIN(>), [](auto x, auto y) { return ref_gt(x, y); });
}

PROBE(C05_C01_C06_mm_ge_dd)
{
    mat_mat<double, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_dd)
{
    mat_sca<double, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C01_C06_mm_ge_ii)
{
    mat_mat<int, int>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_ii)
{
    mat_sca<int, int>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C01_C06_mm_ge_di)
{
    mat_mat<double, int>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_di)
{
    mat_sca<double, int>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C01_C06_mm_ge_id)
{
    mat_mat<int, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_id)
{
    mat_sca<int, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C01_C06_mm_ge_ff)
{
    mat_mat<float, float>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_ff)
{
    mat_sca<float, float>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C01_C06_mm_ge_fd)
{
    mat_mat<float, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_C06_ms_ge_fd)
{
    mat_sca<float, double>(BIN(>=), [](auto x, auto y) { return ref_ge(x, y); });
}

PROBE(C05_opposite_eq_ne_dd)
{
    opposite<double, double>(BIN(==), BIN(!=));
}

PROBE(C05_opposite_eq_ne_ii)
{
    opposite<int, int>(BIN(==), BIN(!=));
}

PROBE(C05_opposite_eq_ne_ff)
{
    opposite<float, float>(BIN(==), BIN(!=));
}

PROBE(C05_opposite_eq_ne_di)
{
    opposite<double, int>(BIN(==), BIN(!=));
}

PROBE(C05_opposite_lt_ge_dd)
{
    opposite<double, double>(BIN(<), BIN(>=));
}

PROBE(C05_opposite_lt_ge_ii)
{
    opposite<int, int>(BIN(<), BIN(>=));
}

PROBE(C05_opposite_lt_ge_ff)
{
    opposite<float, float>(BIN(<), BIN(>=));
}

PROBE(C05_opposite_lt_ge_di)
{
    opposite<double, int>(BIN(<), BIN(>=));
}

PROBE(C05_opposite_gt_le_dd)
{
    opposite<double, double>(BIN(>), BIN(<=));
}

PROBE(C05_opposite_gt_le_ii)
{
    opposite<int, int>(BIN(>), BIN(<=));
}

PROBE(C05_opposite_gt_le_ff)
{
    opposite<float, float>(BIN(>), BIN(<=));
}

PROBE(C05_opposite_gt_le_di)
{
    opposite<double, int>(BIN(>), BIN(<=));
}

PROBE(C05_opposite_eq_ne_zz)
{
    opposite<cplx, cplx>(BIN(==), BIN(!=));
}
