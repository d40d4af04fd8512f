// Written by tools/gen_tpl.py from exc.tpl.
// Failing allocations: whatever operation fails, what remains is a proper matrix or vector (C08) and
// nothing is lost or released twice (C10).
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include <new>


template <typename T> static void t_vassign()
{
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    VEC(T, b, "b", k);
    vf_alloc_may_fail();
    try {
        a = b;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);
    vf_eq_n("C06:source kept", b.size(), k);
}

PROBE(C08_C10_vassign_d)
{
    t_vassign<double>();
}

PROBE(C08_C10_vassign_z)
{
    t_vassign<cplx>();
}

template <typename T> static void t_vassignconv()
{
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    VEC(int, b, "b", k);
    vf_alloc_may_fail();
    try {
        a = b;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);
}

PROBE(C08_C10_vassignconv_d)
{
    t_vassignconv<double>();
}

template <typename T> static void t_vresize()
{
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    vf_alloc_may_fail();
    try {
        a.resize(k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);
}

PROBE(C08_C10_vresize_d)
{
    t_vresize<double>();
}

PROBE(C08_C10_vresize_z)
{
    t_vresize<cplx>();
}

template <typename T> static void t_vbuild()
{
    size_t n = vf_n("n");
    vf_alloc_may_fail();
    try {
        Vector<T> a(n, T(1));
        vf::stored(a);
        Vector<T> b(a);
        vf::stored(b);
        Vector<T> c(std::move(a));
        vf::stored(c);
        vf::stored(a);
    } catch (const std::bad_alloc &) {
    }
}

PROBE(C08_C10_vbuild_d)
{
    t_vbuild<double>();
}

PROBE(C08_C10_vbuild_z)
{
    t_vbuild<cplx>();
}

template <typename T> static void t_massign()
{
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    MAT(T, B, "B", p, q);
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
    vf::stored(B);
}

PROBE(C08_C10_massign_d)
{
    t_massign<double>();
}

PROBE(C08_C10_massign_z)
{
    t_massign<cplx>();
}

template <typename T> static void t_massignbase()
{
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    const MatrixBase<T> &B = ABS(T, "B");
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_massignbase_d)
{
    t_massignbase<double>();
}

PROBE(C08_C10_massignbase_z)
{
    t_massignbase<cplx>();
}

template <typename T> static void t_massignconv()
{
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    MAT(int, B, "B", p, q);
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_massignconv_d)
{
    t_massignconv<double>();
}

template <typename T> static void t_massignlist()
{
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    T x = vf::in<T>::at("x", 0), y = vf::in<T>::at("x", 1), z = vf::in<T>::at("x", 2);
    vf_alloc_may_fail();
    try {
        A = { { x, y, z }, { y, z, x } };
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_massignlist_d)
{
    t_massignlist<double>();
}

PROBE(C08_C10_massignlist_z)
{
    t_massignlist<cplx>();
}

template <typename T> static void t_mresize()
{
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    vf_alloc_may_fail();
    try {
        A.resize(p, q);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_mresize_d)
{
    t_mresize<double>();
}

PROBE(C08_C10_mresize_z)
{
    t_mresize<cplx>();
}

template <typename T> static void t_mbuild()
{
    size_t m = vf_n("m"), n = vf_n("n");
    const MatrixBase<T> &B = ABS(T, "B");
    vf_alloc_may_fail();
    try {
        Matrix<T> a(m, n, T(1));
        vf::stored(a);
        Matrix<T> b(a);
        vf::stored(b);
        Matrix<T> c(B);
        vf::stored(c);
        Matrix<T> d(std::move(a));
        vf::stored(d);
        vf::stored(a);
    } catch (const std::bad_alloc &) {
    }
}

PROBE(C08_C10_mbuild_d)
{
    t_mbuild<double>();
}

PROBE(C08_C10_mbuild_z)
{
    t_mbuild<cplx>();
}

template <typename T> static void t_mremove()
{
    size_t m = vf_n("m"), n = vf_n("n"), k = vf_n("k");
    MAT(T, A, "A", m, n);
    vf_assume(k < m);
    vf_alloc_may_fail();
    try {
        malg::utility::remove_row(A, k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_mremove_d)
{
    t_mremove<double>();
}

template <typename T> static void t_mremovecol()
{
    size_t m = vf_n("m"), n = vf_n("n"), k = vf_n("k");
    MAT(T, A, "A", m, n);
    vf_assume(k < n);
    vf_alloc_may_fail();
    try {
        malg::utility::remove_column(A, k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
}

PROBE(C08_C10_mremovecol_d)
{
    t_mremovecol<double>();
}

template <typename T> static void t_mulassign()
{
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    MAT(T, B, "B", n, n);
    vf_alloc_may_fail();
    try {
        A *= B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
    vf::stored(B);
}

PROBE(C06_C08_C10_mulassign_d)
{
    t_mulassign<double>();
}
