// Failing allocations: whatever operation fails, what remains is a proper matrix or vector (C08) and
// nothing is lost or released twice (C10).
#include "vfm.hpp"
#include "malg/linalg.hpp"
#include <new>

//// vassign C08_C10 d z
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    VEC(T, b, "b", k);
    vf_alloc_may_fail();
    try {
        a = b;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);
    vf_eq_n("C06:source kept", b.size(), k);

//// vassignconv C08_C10 d
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    VEC(int, b, "b", k);
    vf_alloc_may_fail();
    try {
        a = b;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);

//// vresize C08_C10 d z
    size_t n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "a", n);
    vf_alloc_may_fail();
    try {
        a.resize(k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(a);

//// vbuild C08_C10 d z
    size_t n = vf_n("n");
    vf_alloc_may_fail();
    try {
        Vector<T> a(n, T(1));
        vf::stored(a);
        Vector<T> b(a);
        vf::stored(b);
        Vector<T> c(std::move(a));
        vf::stored(c);
        vf::stored(a);
    } catch (const std::bad_alloc &) {
    }

//// massign C08_C10 d z
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    MAT(T, B, "B", p, q);
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
    vf::stored(B);

//// massignbase C08_C10 d z
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    const MatrixBase<T> &B = ABS(T, "B");
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// massignconv C08_C10 d
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    MAT(int, B, "B", p, q);
    vf_alloc_may_fail();
    try {
        A = B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// massignlist C08_C10 d z
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    T x = vf::in<T>::at("x", 0), y = vf::in<T>::at("x", 1), z = vf::in<T>::at("x", 2);
    vf_alloc_may_fail();
    try {
        A = { { x, y, z }, { y, z, x } };
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// mresize C08_C10 d z
    size_t m = vf_n("m"), n = vf_n("n"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "A", m, n);
    vf_alloc_may_fail();
    try {
        A.resize(p, q);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// mbuild C08_C10 d z
    size_t m = vf_n("m"), n = vf_n("n");
    const MatrixBase<T> &B = ABS(T, "B");
    vf_alloc_may_fail();
    try {
        Matrix<T> a(m, n, T(1));
        vf::stored(a);
        Matrix<T> b(a);
        vf::stored(b);
        Matrix<T> c(B);
        vf::stored(c);
        Matrix<T> d(std::move(a));
        vf::stored(d);
        vf::stored(a);
    } catch (const std::bad_alloc &) {
    }

//// mremove C08_C10 d
    size_t m = vf_n("m"), n = vf_n("n"), k = vf_n("k");
    MAT(T, A, "A", m, n);
    vf_assume(k < m);
    vf_alloc_may_fail();
    try {
        malg::utility::remove_row(A, k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// mremovecol C08_C10 d
    size_t m = vf_n("m"), n = vf_n("n"), k = vf_n("k");
    MAT(T, A, "A", m, n);
    vf_assume(k < n);
    vf_alloc_may_fail();
    try {
        malg::utility::remove_column(A, k);
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);

//// mulassign C06_C08_C10 d
    size_t m = vf_n("m"), n = vf_n("n");
    MAT(T, A, "A", m, n);
    MAT(T, B, "B", n, n);
    vf_alloc_may_fail();
    try {
        A *= B;
    } catch (const std::bad_alloc &) {
    }
    vf::stored(A);
    vf::stored(B);
