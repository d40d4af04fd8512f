// Construction, assignment, move, resize, reshape and addressing of matrices and vectors.
#include "vfm.hpp"

#define IN(T, n, i) vf::in<T>::at(n, i)
#define POS(i, n) auto i = vf_n(#i); vf_assume(i < (n))

// ---------------------------------------------------------------- constructors
template <typename T>
inline void ctor_fill()
{
    auto n = vf_n("n"), m = vf_n("m");
    T x = IN(T, "x", 0);
    Matrix<T> A(n, m, x);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < m);
    vf::eq("C09:element", A(r, c), x);
}

template <typename T>
inline void ctor_zero()
{
    auto n = vf_n("n"), m = vf_n("m");
    Matrix<T> A(n, m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    POS(i, n * m);
    vf::eq("C10:new elements are zero", A[i], T(0));
}

template <typename T>
inline void ctor_default()
{
    Matrix<T> A;
    vf_eq_n("rows", A.rows(), 0);
    vf_eq_n("cols", A.cols(), 0);
    vf::stored(A);
    Vector<T> v;
    vf_eq_n("size", v.size(), 0);
    vf::stored(v);
}

template <typename T>
inline void ctor_list()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k");
    VEC(T, src, "S", k);
    vf_throws_iff("C15:number of values", k != n * m);
    Matrix<T> A(n, m, vf::list<T>(src.data(), k));
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < n && c < m);
    vf::eq("C15:element", A(r, c), IN(T, "S", r * m + c));
}

template <typename T>
inline void ctor_stdvector()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k");
    VEC(T, src, "S", k);
    union U { std::vector<T> v; U() { } ~U() { } } u;
    std::vector<T> &v = u.v;
    {
        struct { T *b, *e, *c; } raw = { src.data(), src.data() + k, src.data() + k };
        static_assert(sizeof(raw) == sizeof(v));
        __builtin_memcpy(static_cast<void *>(&v), &raw, sizeof(raw));
    }
    {
        vf_throws_iff("C15:number of values", k != n * m);
        Matrix<T> A(n, m, v);
        vf_eq_n("rows", A.rows(), n);
        vf_eq_n("cols", A.cols(), m);
        vf::stored(A);
        auto r = vf_n("r"), c = vf_n("c");
        vf_assume(r < n && c < m);
        vf::eq("C15:element", A(r, c), IN(T, "S", r * m + c));
    }
}

template <typename T>
inline void ctor_nested()
{
    T a = IN(T, "a", 0), b = IN(T, "a", 1), c = IN(T, "a", 2), d = IN(T, "a", 3), e = IN(T, "a", 4), f = IN(T, "a", 5);
    Matrix<T> A = { { a, b, c }, { d, e, f } };
    vf_eq_n("rows", A.rows(), 2);
    vf_eq_n("cols", A.cols(), 3);
    vf::stored(A);
    vf::eq("C15:0,0", A(0, 0), a);
    vf::eq("C15:0,1", A(0, 1), b);
    vf::eq("C15:0,2", A(0, 2), c);
    vf::eq("C15:1,0", A(1, 0), d);
    vf::eq("C15:1,1", A(1, 1), e);
    vf::eq("C15:1,2", A(1, 2), f);
    auto n = vf_n("n"), m = vf_n("m");
    Matrix<T> B(n, m);
    auto &R = (B = { { a, b }, { c, d }, { e, f } });
    vf_eq_p("C06:returns the left operand", &R, &B);
    vf_eq_n("C09:rows", B.rows(), 3);
    vf_eq_n("C09:cols", B.cols(), 2);
    vf::stored(B);
    vf::eq("C09:0,0", B(0, 0), a);
    vf::eq("C09:0,1", B(0, 1), b);
    vf::eq("C09:1,0", B(1, 0), c);
    vf::eq("C09:1,1", B(1, 1), d);
    vf::eq("C09:2,0", B(2, 0), e);
    vf::eq("C09:2,1", B(2, 1), f);
    Matrix<T> row = { { a, b } }, col = { { c }, { d } }, one = { { e } };
    vf_eq_n("rows", row.rows(), 1);
    vf_eq_n("cols", row.cols(), 2);
    vf::stored(row);
    vf::eq("C15:row", row(0, 0), a);
    vf::eq("C15:row", row(0, 1), b);
    vf_eq_n("rows", col.rows(), 2);
    vf_eq_n("cols", col.cols(), 1);
    vf::stored(col);
    vf::eq("C15:column", col(0, 0), c);
    vf::eq("C15:column", col(1, 0), d);
    vf_eq_n("rows", one.rows(), 1);
    vf_eq_n("cols", one.cols(), 1);
    vf::stored(one);
    vf::eq("C15:one", one(0, 0), e);
    B = { { a, b, c } };
    vf_eq_n("C09:rows", B.rows(), 1);
    vf_eq_n("C09:cols", B.cols(), 3);
    vf::stored(B);
    vf::eq("C09:row", B(0, 0), a);
    vf::eq("C09:row", B(0, 1), b);
    vf::eq("C09:row", B(0, 2), c);
    B = { { d }, { e } };
    vf_eq_n("C09:rows", B.rows(), 2);
    vf_eq_n("C09:cols", B.cols(), 1);
    vf::stored(B);
    vf::eq("C09:column", B(0, 0), d);
    vf::eq("C09:column", B(1, 0), e);
    B = { { f } };
    vf_eq_n("C09:rows", B.rows(), 1);
    vf_eq_n("C09:cols", B.cols(), 1);
    vf::stored(B);
    vf::eq("C09:one", B(0, 0), f);
}

PROBE(C08_C15_ragged_1)
{
    vf_throws_iff("ragged", true);
    Matrix<double> A = { { 1., 2. }, { 3. } };
    vf_true("must throw", false);
}
PROBE(C08_C15_ragged_2)
{
    vf_throws_iff("ragged", true);
    Matrix<double> A = { { 1. }, { 3., 4. } };
    vf_true("must throw", false);
}
PROBE(C08_C15_ragged_3)
{
    vf_throws_iff("no columns", true);
    Matrix<double> A = { {}, { 3., 4. } };
    vf_true("must throw", false);
}
PROBE(C08_C15_ragged_4)
{
    std::initializer_list<std::initializer_list<double>> l;
    vf_throws_iff("no rows", true);
    Matrix<double> A(l);
    vf_true("must throw", false);
}
PROBE(C08_C09_C01_ragged_assign_1)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "A", n, m);
    vf_guard_object("dimensions kept", &A);
    vf_keeps("elements kept", A.data(), "A");
    vf_throws_iff("ragged", true);
    A = { { 1., 2. }, { 3. } };
    vf_true("must throw", false);
}
PROBE(C08_C09_C01_ragged_assign_2)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "A", n, m);
    vf_guard_object("dimensions kept", &A);
    vf_keeps("elements kept", A.data(), "A");
    vf_throws_iff("ragged", true);
    A = { { 1. }, { 3., 2. } };
    vf_true("must throw", false);
}

template <typename T>
inline void vec_ctor()
{
    auto n = vf_n("n");
    {
        Vector<T> v(n);
        vf_eq_n("size", v.size(), n);
        vf::stored(v);
        POS(i, n);
        vf::eq("C10:new elements are zero", v[i], T(0));
        vf::eq("C12:data", v.data()[i], v[i]);
        vf_eq_p("C12:iterator", v.begin() + i, &v[i]);
        const Vector<T> &cv = v;
        vf_eq_p("C12:constant", &cv[i], &v[i]);
        vf_eq_p("C12:constant iterator", cv.begin() + i, &v[i]);
        vf_eq_p("C12:constant iterator", cv.cbegin() + i, &v[i]);
        vf_eq_p("C12:constant data", cv.data() + i, &v[i]);
        vf_eq_p("C12:end", v.end(), &v[0] + n);
    }
    {
        T x = IN(T, "x", 0);
        Vector<T> v(n, x);
        vf_eq_n("size", v.size(), n);
        vf::stored(v);
        POS(j, n);
        vf::eq("C09:element", v[j], x);
    }
}

template <typename T>
inline void vec_list()
{
    auto n = vf_n("n");
    VEC(T, src, "S", n);
    {
        Vector<T> v(vf::list<T>(src.data(), n));
        vf_eq_n("size", v.size(), n);
        vf::stored(v);
        POS(i, n);
        vf::eq("C15:element", v[i], IN(T, "S", i));
    }
    {
        Vector<T> v(n, vf::list<T>(src.data(), n));
        vf_eq_n("size", v.size(), n);
        vf::stored(v);
        POS(i, n);
        vf::eq("C15:element", v[i], IN(T, "S", i));
    }
}

template <typename T>
inline void vec_list_size()
{
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, src, "S", k);
    vf_may_assert();
    vf_throws_iff("number of values", false);
    Vector<T> v(n, vf::list<T>(src.data(), k));
    vf_eq_n("size", v.size(), k);
}

// ---------------------------------------------------------------- copies
template <typename D, typename S>
inline void same(const char *what, Matrix<D> &A, size_t n, size_t m)
{
    vf_eq_n("C09:rows", A.rows(), n);
    vf_eq_n("C09:cols", A.cols(), m);
    vf::stored(A);
    POS(i, n * m);
    vf::eq("C09:element", A[i], static_cast<D>(IN(S, what, i)));
}

template <typename D, typename S>
inline void copy_ctor_base()
{
    auto &S_ = ABS(S, "S");
    Matrix<D> A(S_);
    same<D, S>("S", A, S_.rows(), S_.cols());
    POS(j, S_.size());
    A[j] = A[j] + A[j];
    vf::eq("C06:source unchanged", S_[j], IN(S, "S", j));
}

template <typename D, typename S>
inline void copy_ctor()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(S, B, "S", n, m);
    Matrix<D> A(static_cast<const Matrix<S> &>(B));
    same<D, S>("S", A, n, m);
    POS(j, n * m);
    A[j] = A[j] + A[j];
    vf::eq("C06:source unchanged", B[j], IN(S, "S", j));
    vf::stored(B);
}

template <typename D, typename S>
inline void move_ctor()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(S, B, "S", n, m);
    Matrix<D> A(std::move(B));
    same<D, S>("S", A, n, m);
    vf::stored(B);
    if (std::is_same_v<D, S>)
        vf_eq_n("C08:moved from", B.size(), 0);
    B = Matrix<S>(2, 2, S(1));
    POS(k, 4);
    vf::eq("C08:safe to reuse", B[k], S(1));
    vf::stored(B);
    POS(j, n * m);
    vf::eq("C09:element (after reuse of the source)", A[j], static_cast<D>(IN(S, "S", j)));
}

template <typename D, typename S, typename Op>
inline void assign_base(Op op)
{
    auto &S_ = ABS(S, "S");
    auto n = vf_n("n"), m = vf_n("m");
    MAT(D, A, "A", n, m);
    auto &R = op(A, S_);
    vf_eq_p("C06:returns the left operand", &R, &A);
    same<D, S>("S", A, S_.rows(), S_.cols());
    POS(j, S_.size());
    A[j] = A[j] + A[j];
    vf::eq("C06:source unchanged", S_[j], IN(S, "S", j));
}

template <typename D, typename S>
inline void assign()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(D, A, "A", n, m);
    MAT(S, B, "S", k, l);
    auto &R = (A = static_cast<const Matrix<S> &>(B));
    vf_eq_p("C06:returns the left operand", &R, &A);
    same<D, S>("S", A, k, l);
    POS(j, k * l);
    A[j] = A[j] + A[j];
    vf::eq("C06:source unchanged", B[j], IN(S, "S", j));
    vf::stored(B);
}

template <typename D, typename S>
inline void assign_move()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(D, A, "A", n, m);
    MAT(S, B, "S", k, l);
    auto &R = (A = std::move(B));
    vf_eq_p("C06:returns the left operand", &R, &A);
    same<D, S>("S", A, k, l);
    vf::stored(B);
    if (std::is_same_v<D, S>)
        vf_eq_n("C08:moved from", B.size(), 0);
    B = Matrix<S>(2, 2, S(1));
    POS(p, 4);
    vf::eq("C08:safe to reuse", B[p], S(1));
    vf::stored(B);
    POS(j, k * l);
    vf::eq("C09:element (after reuse of the source)", A[j], static_cast<D>(IN(S, "S", j)));
}

PROBE(C09_C08_self_assign)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "S", n, m);
    const Matrix<double> &B = A;
    A = B;
    same<double, double>("S", A, n, m);
}
PROBE(C09_C08_self_assign_base)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "S", n, m);
    const MatrixBase<double> &B = A;
    A = B;
    same<double, double>("S", A, n, m);
}
PROBE(C09_C08_self_move)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "S", n, m);
    Matrix<double> &B = A;
    A = std::move(B);
    same<double, double>("S", A, n, m);
}
PROBE(C09_C08_assign_own_view)
{
    auto n = vf_n("n"), m = vf_n("m"), r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_assume(r0 < r1 && r1 <= n && c0 < c1 && c1 <= m);
    MAT(double, A, "S", n, m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < r1 - r0 && j < c1 - c0);
    double x = A(r0 + i, c0 + j);
    A = A(Range{ r0, r1 }, Range{ c0, c1 });
    vf_eq_n("rows", A.rows(), r1 - r0);
    vf_eq_n("cols", A.cols(), c1 - c0);
    vf::stored(A);
    vf::eq("element", A(i, j), x);
}
PROBE(C09_C08_assign_own_minor)
{
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    vf_assume(p < n && q < m);
    MAT(double, A, "S", n, m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i + 1 < n && j + 1 < m);
    double x = A(i + (i >= p), j + (j >= q));
    A = CofactorView<Matrix<double>>(&A, p, q);
    vf_eq_n("rows", A.rows(), n - 1);
    vf_eq_n("cols", A.cols(), m - 1);
    vf::stored(A);
    vf::eq("element", A(i, j), x);
}

template <typename D, typename S>
inline void same(const char *what, Vector<D> &a, size_t n)
{
    vf_eq_n("C09:size", a.size(), n);
    vf::stored(a);
    POS(i, n);
    vf::eq("C09:element", a[i], static_cast<D>(IN(S, what, i)));
}

template <typename D, typename S>
inline void vec_copy()
{
    auto n = vf_n("n");
    VEC(S, b, "S", n);
    Vector<D> a(static_cast<const Vector<S> &>(b));
    same<D, S>("S", a, n);
    POS(j, n);
    a[j] = a[j] + a[j];
    vf::eq("C06:source unchanged", b[j], IN(S, "S", j));
    vf::stored(b);
}

template <typename D, typename S>
inline void vec_move()
{
    auto n = vf_n("n");
    VEC(S, b, "S", n);
    Vector<D> a(std::move(b));
    same<D, S>("S", a, n);
    if (std::is_same_v<D, S>)
        vf_eq_n("C08:moved from", b.size(), 0);
    vf::stored(b);
    b.resize(3);
    b[2] = S(1);
    vf::stored(b);
    POS(j, n);
    vf::eq("C09:element (after reuse of the source)", a[j], static_cast<D>(IN(S, "S", j)));
}

template <typename D, typename S>
inline void vec_assign()
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(D, a, "A", n);
    VEC(S, b, "S", m);
    auto &R = (a = static_cast<const Vector<S> &>(b));
    vf_eq_p("C06:returns the left operand", &R, &a);
    same<D, S>("S", a, m);
    POS(j, m);
    a[j] = a[j] + a[j];
    vf::eq("C06:source unchanged", b[j], IN(S, "S", j));
    vf::stored(b);
}

template <typename D, typename S>
inline void vec_assign_move()
{
    auto n = vf_n("n"), m = vf_n("m");
    VEC(D, a, "A", n);
    VEC(S, b, "S", m);
    auto &R = (a = std::move(b));
    vf_eq_p("C06:returns the left operand", &R, &a);
    same<D, S>("S", a, m);
    if (std::is_same_v<D, S>)
        vf_eq_n("C08:moved from", b.size(), 0);
    vf::stored(b);
    b.resize(3);
    b[2] = S(1);
    vf::stored(b);
    POS(j, m);
    vf::eq("C09:element (after reuse of the source)", a[j], static_cast<D>(IN(S, "S", j)));
}

PROBE(C09_C08_vec_self_assign)
{
    auto n = vf_n("n");
    VEC(double, a, "S", n);
    const Vector<double> &b = a;
    a = b;
    same<double, double>("S", a, n);
}
PROBE(C09_C08_vec_self_move)
{
    auto n = vf_n("n");
    VEC(double, a, "S", n);
    Vector<double> &b = a;
    a = std::move(b);
    same<double, double>("S", a, n);
}

// ---------------------------------------------------------------- resize, reshape
template <typename T>
inline void resize()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(T, A, "A", n, m);
    Matrix<T> B(A);
    auto &R = A.resize(k, l);
    vf_eq_p("C06:returns the left operand", &R, &A);
    vf_eq_n("C11:rows", A.rows(), k);
    vf_eq_n("C11:cols", A.cols(), l);
    vf::stored(A);
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < k && c < l);
    T old = T(0);
    if (r < n && c < m)
        old = B(r, c);
    vf::eq("C11:element", A(r, c), old);
}

template <typename T>
inline void reshape()
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(T, A, "A", n, m);
    vf_guard_object("C11:rejected reshape keeps the dimensions", &A);
    vf_keeps("C11:rejected reshape keeps the elements", A.data(), "A");
    vf_throws_iff("C11:number of elements", n * m != k * l);
    auto &R = A.reshape(k, l);
    vf_eq_p("C06:returns the left operand", &R, &A);
    vf_eq_n("C11:rows", A.rows(), k);
    vf_eq_n("C11:cols", A.cols(), l);
    vf::stored(A);
    POS(i, n * m);
    vf::eq("C11:linear order", A[i], IN(T, "A", i));
}

template <typename T>
inline void vec_resize()
{
    auto n = vf_n("n"), k = vf_n("k");
    VEC(T, a, "A", n);
    auto &R = a.resize(k);
    vf_eq_p("C06:returns the left operand", &R, &a);
    vf_eq_n("C10:size", a.size(), k);
    vf::stored(a);
    POS(i, k);
    T old = T(0);
    if (i < n)
        old = IN(T, "A", i);
    vf::eq("C10:element", a[i], old);
    VEC(T, b, "B", n);
    Vector<T> z(k);
    b.resize(z);
    vf_eq_n("C10:size", b.size(), k);
    vf::stored(b);
    T oldb = T(0);
    if (i < n)
        oldb = IN(T, "B", i);
    vf::eq("C10:element", b[i], oldb);
}

// ---------------------------------------------------------------- histories
PROBE(C08_C10_C11_grow_shrink_grow)
{
    auto n = vf_n("n"), k = vf_n("k"), l = vf_n("l");
    VEC(double, a, "A", n);
    a.resize(k);
    a.resize(l);
    vf::stored(a);
    POS(i, l);
    double old = (i < n && i < k) ? vf_in_d("A", i) : 0.;
    vf_eq_d("element", a[i], old);
}
PROBE(C08_C10_clear_and_reuse)
{
    auto n = vf_n("n"), k = vf_n("k");
    VEC(double, a, "A", n);
    a.resize(0);
    vf::stored(a);
    a.resize(k);
    vf::stored(a);
    POS(i, k);
    vf_eq_d("element", a[i], 0.);
}
PROBE(C08_C10_C11_resize_twice)
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l"), p = vf_n("p"), q = vf_n("q");
    MAT(double, A, "A", n, m);
    A.resize(k, l);
    A.resize(p, q);
    vf::stored(A);
}
PROBE(C08_C09_C10_swap_by_moves)
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(double, A, "A", n, m);
    MAT(double, B, "B", k, l);
    std::swap(A, B);
    vf_eq_n("rows", A.rows(), k);
    vf_eq_n("cols", A.cols(), l);
    vf_eq_n("rows", B.rows(), n);
    vf_eq_n("cols", B.cols(), m);
    vf::stored(A);
    vf::stored(B);
    POS(i, k * l);
    vf_eq_d("element", A[i], vf_in_d("B", i));
    POS(j, n * m);
    vf_eq_d("element", B[j], vf_in_d("A", j));
}
PROBE(C08_C09_C10_moved_from_twice)
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(double, A, "A", n, m);
    Matrix<double> B(std::move(A));
    Matrix<double> C(std::move(A));
    vf_eq_n("size", C.size(), 0);
    vf::stored(C);
    A.resize(n, m);
    vf::stored(A);
    A = B;
    vf::stored(A);
    POS(i, n * m);
    vf_eq_d("element", A[i], vf_in_d("A", i));
    C = std::move(B);
    vf::stored(B);
    vf_eq_d("element", C[i], vf_in_d("A", i));
}
PROBE(C08_C09_C10_assign_empty_and_back)
{
    auto n = vf_n("n"), m = vf_n("m"), k = vf_n("k"), l = vf_n("l");
    MAT(double, A, "A", n, m);
    Matrix<double> E;
    A = E;
    vf::stored(A);
    vf_eq_n("size", A.size(), 0);
    MAT(double, B, "B", k, l);
    A = B;
    vf::stored(A);
    POS(i, k * l);
    vf_eq_d("element", A[i], vf_in_d("B", i));
    Vector<double> v(n), e;
    v = e;
    vf::stored(v);
    vf_eq_n("size", v.size(), 0);
}

// ---------------------------------------------------------------- addressing
template <typename T>
inline void address()
{
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "A", n, m);
    const Matrix<T> &C = A;
    auto r = vf_n("r"), c = vf_n("c"), r2 = vf_n("r2"), c2 = vf_n("c2");
    vf_assume(r < n && c < m && r2 < n && c2 < m);
#ifdef ROW_MAJOR
    size_t k = r * m + c, k2 = r2 * m + c2;
#else
    size_t k = c * n + r, k2 = c2 * n + r2;
#endif
    vf_eq_p("call and at", &A(r, c), &A.at(r, c));
    vf_eq_p("at and linear", &A.at(r, c), &A[k]);
    vf_eq_p("linear and data", &A[k], A.data() + k);
    vf_eq_p("data and iterator", A.data() + k, A.begin() + k);
    vf_eq_p("constant call", &C(r, c), &A(r, c));
    vf_eq_p("constant at", &C.at(r, c), &A(r, c));
    vf_eq_p("constant linear", &C[k], &A[k]);
    vf_eq_p("constant data", C.data(), A.data());
    vf_eq_p("constant begin", C.begin(), A.begin());
    vf_eq_p("constant end", C.end(), A.end());
    MatrixBase<T> &B = A;
    vf_eq_p("base call", &B(r, c), &A(r, c));
    vf_eq_p("base at", &B.at(r, c), &A(r, c));
    vf_eq_p("base linear", &B[k], &A[k]);
    vf_eq_p("base data", B.data(), A.data());
    vf_true("inside", k < static_cast<size_t>(A.end() - A.begin()));
    if (r != r2 || c != c2)
        vf_true("distinct", k != k2);
    vf::eq("value", A(r, c), IN(T, "A", k));
    T x = IN(T, "x", 0);
    A(r, c) = x;
    vf::eq("written value", A[k], x);
    POS(i, n * m);
    if (i != k)
        vf::eq("others unchanged", A[i], IN(T, "A", i));
}

PROBE(C08_C09_C12_ctor_fill_d)
{
    ctor_fill<double>();
}
PROBE(C08_C10_ctor_zero_d)
{
    ctor_zero<double>();
}
PROBE(C08_ctor_default_d)
{
    ctor_default<double>();
}
PROBE(C08_C15_C01_ctor_list_d)
{
    ctor_list<double>();
}
PROBE(C08_C15_C01_ctor_stdvector_d)
{
    ctor_stdvector<double>();
}
PROBE(C08_C15_C09_C06_ctor_nested_d)
{
    ctor_nested<double>();
}
PROBE(C08_C10_C12_C09_vec_ctor_d)
{
    vec_ctor<double>();
}
PROBE(C08_C15_vec_list_d)
{
    vec_list<double>();
}
PROBE(C15_C02_vec_list_size_d)
{
    vec_list_size<double>();
}
PROBE(C11_C08_C06_resize_d)
{
    resize<double>();
}
PROBE(C11_C08_C06_reshape_d)
{
    reshape<double>();
}
PROBE(C10_C08_C06_vec_resize_d)
{
    vec_resize<double>();
}
PROBE(C12_address_d)
{
    address<double>();
}
PROBE(C08_C09_C12_ctor_fill_z)
{
    ctor_fill<cplx>();
}
PROBE(C08_C10_ctor_zero_z)
{
    ctor_zero<cplx>();
}
PROBE(C08_ctor_default_z)
{
    ctor_default<cplx>();
}
PROBE(C08_C15_C01_ctor_list_z)
{
    ctor_list<cplx>();
}
PROBE(C08_C15_C01_ctor_stdvector_z)
{
    ctor_stdvector<cplx>();
}
PROBE(C08_C15_C09_C06_ctor_nested_z)
{
    ctor_nested<cplx>();
}
PROBE(C08_C10_C12_C09_vec_ctor_z)
{
    vec_ctor<cplx>();
}
PROBE(C08_C15_vec_list_z)
{
    vec_list<cplx>();
}
PROBE(C15_C02_vec_list_size_z)
{
    vec_list_size<cplx>();
}
PROBE(C11_C08_C06_resize_z)
{
    resize<cplx>();
}
PROBE(C11_C08_C06_reshape_z)
{
    reshape<cplx>();
}
PROBE(C10_C08_C06_vec_resize_z)
{
    vec_resize<cplx>();
}
PROBE(C12_address_z)
{
    address<cplx>();
}
PROBE(C08_C09_C12_ctor_fill_i)
{
    ctor_fill<int>();
}
PROBE(C08_C10_ctor_zero_i)
{
    ctor_zero<int>();
}
PROBE(C08_ctor_default_i)
{
    ctor_default<int>();
}
PROBE(C08_C15_C01_ctor_list_i)
{
    ctor_list<int>();
}
PROBE(C08_C15_C01_ctor_stdvector_i)
{
    ctor_stdvector<int>();
}
PROBE(C08_C15_C09_C06_ctor_nested_i)
{
    ctor_nested<int>();
}
PROBE(C08_C10_C12_C09_vec_ctor_i)
{
    vec_ctor<int>();
}
PROBE(C08_C15_vec_list_i)
{
    vec_list<int>();
}
PROBE(C15_C02_vec_list_size_i)
{
    vec_list_size<int>();
}
PROBE(C11_C08_C06_resize_i)
{
    resize<int>();
}
PROBE(C11_C08_C06_reshape_i)
{
    reshape<int>();
}
PROBE(C10_C08_C06_vec_resize_i)
{
    vec_resize<int>();
}
PROBE(C12_address_i)
{
    address<int>();
}
PROBE(C08_C09_C12_ctor_fill_f)
{
    ctor_fill<float>();
}
PROBE(C08_C10_ctor_zero_f)
{
    ctor_zero<float>();
}
PROBE(C08_ctor_default_f)
{
    ctor_default<float>();
}
PROBE(C08_C15_C01_ctor_list_f)
{
    ctor_list<float>();
}
PROBE(C08_C15_C01_ctor_stdvector_f)
{
    ctor_stdvector<float>();
}
PROBE(C08_C15_C09_C06_ctor_nested_f)
{
    ctor_nested<float>();
}
PROBE(C08_C10_C12_C09_vec_ctor_f)
{
    vec_ctor<float>();
}
PROBE(C08_C15_vec_list_f)
{
    vec_list<float>();
}
PROBE(C15_C02_vec_list_size_f)
{
    vec_list_size<float>();
}
PROBE(C11_C08_C06_resize_f)
{
    resize<float>();
}
PROBE(C11_C08_C06_reshape_f)
{
    reshape<float>();
}
PROBE(C10_C08_C06_vec_resize_f)
{
    vec_resize<float>();
}
PROBE(C12_address_f)
{
    address<float>();
}
PROBE(C09_C08_C06_C10_copy_base_dd)
{
    copy_ctor_base<double, double>();
}
PROBE(C09_C08_C06_C10_copy_dd)
{
    copy_ctor<double, double>();
}
PROBE(C09_C08_C06_C10_move_dd)
{
    move_ctor<double, double>();
}
PROBE(C09_C08_C06_C10_assign_base_dd)
{
    assign_base<double, double>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_dd)
{
    assign<double, double>();
}
PROBE(C09_C08_C06_C10_assign_move_dd)
{
    assign_move<double, double>();
}
PROBE(C09_C08_C06_C10_vec_copy_dd)
{
    vec_copy<double, double>();
}
PROBE(C09_C08_C06_C10_vec_move_dd)
{
    vec_move<double, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_dd)
{
    vec_assign<double, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_dd)
{
    vec_assign_move<double, double>();
}
PROBE(C09_C08_C06_C10_copy_base_zz)
{
    copy_ctor_base<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_copy_zz)
{
    copy_ctor<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_move_zz)
{
    move_ctor<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_assign_base_zz)
{
    assign_base<cplx, cplx>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_zz)
{
    assign<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_assign_move_zz)
{
    assign_move<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_vec_copy_zz)
{
    vec_copy<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_vec_move_zz)
{
    vec_move<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_vec_assign_zz)
{
    vec_assign<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_zz)
{
    vec_assign_move<cplx, cplx>();
}
PROBE(C09_C08_C06_C10_copy_base_ii)
{
    copy_ctor_base<int, int>();
}
PROBE(C09_C08_C06_C10_copy_ii)
{
    copy_ctor<int, int>();
}
PROBE(C09_C08_C06_C10_move_ii)
{
    move_ctor<int, int>();
}
PROBE(C09_C08_C06_C10_assign_base_ii)
{
    assign_base<int, int>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_ii)
{
    assign<int, int>();
}
PROBE(C09_C08_C06_C10_assign_move_ii)
{
    assign_move<int, int>();
}
PROBE(C09_C08_C06_C10_vec_copy_ii)
{
    vec_copy<int, int>();
}
PROBE(C09_C08_C06_C10_vec_move_ii)
{
    vec_move<int, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_ii)
{
    vec_assign<int, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_ii)
{
    vec_assign_move<int, int>();
}
PROBE(C09_C08_C06_C10_copy_base_ff)
{
    copy_ctor_base<float, float>();
}
PROBE(C09_C08_C06_C10_copy_ff)
{
    copy_ctor<float, float>();
}
PROBE(C09_C08_C06_C10_move_ff)
{
    move_ctor<float, float>();
}
PROBE(C09_C08_C06_C10_assign_base_ff)
{
    assign_base<float, float>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_ff)
{
    assign<float, float>();
}
PROBE(C09_C08_C06_C10_assign_move_ff)
{
    assign_move<float, float>();
}
PROBE(C09_C08_C06_C10_vec_copy_ff)
{
    vec_copy<float, float>();
}
PROBE(C09_C08_C06_C10_vec_move_ff)
{
    vec_move<float, float>();
}
PROBE(C09_C08_C06_C10_vec_assign_ff)
{
    vec_assign<float, float>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_ff)
{
    vec_assign_move<float, float>();
}
PROBE(C09_C08_C06_C10_copy_base_di)
{
    copy_ctor_base<double, int>();
}
PROBE(C09_C08_C06_C10_copy_di)
{
    copy_ctor<double, int>();
}
PROBE(C09_C08_C06_C10_move_di)
{
    move_ctor<double, int>();
}
PROBE(C09_C08_C06_C10_assign_base_di)
{
    assign_base<double, int>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_di)
{
    assign<double, int>();
}
PROBE(C09_C08_C06_C10_assign_move_di)
{
    assign_move<double, int>();
}
PROBE(C09_C08_C06_C10_vec_copy_di)
{
    vec_copy<double, int>();
}
PROBE(C09_C08_C06_C10_vec_move_di)
{
    vec_move<double, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_di)
{
    vec_assign<double, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_di)
{
    vec_assign_move<double, int>();
}
PROBE(C09_C08_C06_C10_copy_base_id)
{
    copy_ctor_base<int, double>();
}
PROBE(C09_C08_C06_C10_copy_id)
{
    copy_ctor<int, double>();
}
PROBE(C09_C08_C06_C10_move_id)
{
    move_ctor<int, double>();
}
PROBE(C09_C08_C06_C10_assign_base_id)
{
    assign_base<int, double>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_id)
{
    assign<int, double>();
}
PROBE(C09_C08_C06_C10_assign_move_id)
{
    assign_move<int, double>();
}
PROBE(C09_C08_C06_C10_vec_copy_id)
{
    vec_copy<int, double>();
}
PROBE(C09_C08_C06_C10_vec_move_id)
{
    vec_move<int, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_id)
{
    vec_assign<int, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_id)
{
    vec_assign_move<int, double>();
}
PROBE(C09_C08_C06_C10_copy_base_zd)
{
    copy_ctor_base<cplx, double>();
}
PROBE(C09_C08_C06_C10_copy_zd)
{
    copy_ctor<cplx, double>();
}
PROBE(C09_C08_C06_C10_move_zd)
{
    move_ctor<cplx, double>();
}
PROBE(C09_C08_C06_C10_assign_base_zd)
{
    assign_base<cplx, double>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_zd)
{
    assign<cplx, double>();
}
PROBE(C09_C08_C06_C10_assign_move_zd)
{
    assign_move<cplx, double>();
}
PROBE(C09_C08_C06_C10_vec_copy_zd)
{
    vec_copy<cplx, double>();
}
PROBE(C09_C08_C06_C10_vec_move_zd)
{
    vec_move<cplx, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_zd)
{
    vec_assign<cplx, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_zd)
{
    vec_assign_move<cplx, double>();
}
PROBE(C09_C08_C06_C10_copy_base_df)
{
    copy_ctor_base<double, float>();
}
PROBE(C09_C08_C06_C10_copy_df)
{
    copy_ctor<double, float>();
}
PROBE(C09_C08_C06_C10_move_df)
{
    move_ctor<double, float>();
}
PROBE(C09_C08_C06_C10_assign_base_df)
{
    assign_base<double, float>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_df)
{
    assign<double, float>();
}
PROBE(C09_C08_C06_C10_assign_move_df)
{
    assign_move<double, float>();
}
PROBE(C09_C08_C06_C10_vec_copy_df)
{
    vec_copy<double, float>();
}
PROBE(C09_C08_C06_C10_vec_move_df)
{
    vec_move<double, float>();
}
PROBE(C09_C08_C06_C10_vec_assign_df)
{
    vec_assign<double, float>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_df)
{
    vec_assign_move<double, float>();
}
PROBE(C09_C08_C06_C10_copy_base_fd)
{
    copy_ctor_base<float, double>();
}
PROBE(C09_C08_C06_C10_copy_fd)
{
    copy_ctor<float, double>();
}
PROBE(C09_C08_C06_C10_move_fd)
{
    move_ctor<float, double>();
}
PROBE(C09_C08_C06_C10_assign_base_fd)
{
    assign_base<float, double>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_fd)
{
    assign<float, double>();
}
PROBE(C09_C08_C06_C10_assign_move_fd)
{
    assign_move<float, double>();
}
PROBE(C09_C08_C06_C10_vec_copy_fd)
{
    vec_copy<float, double>();
}
PROBE(C09_C08_C06_C10_vec_move_fd)
{
    vec_move<float, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_fd)
{
    vec_assign<float, double>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_fd)
{
    vec_assign_move<float, double>();
}
PROBE(C09_C08_C06_C10_copy_base_zi)
{
    copy_ctor_base<cplx, int>();
}
PROBE(C09_C08_C06_C10_copy_zi)
{
    copy_ctor<cplx, int>();
}
PROBE(C09_C08_C06_C10_move_zi)
{
    move_ctor<cplx, int>();
}
PROBE(C09_C08_C06_C10_assign_base_zi)
{
    assign_base<cplx, int>([](auto &x, auto &y) -> auto & { return x = y; });
}
PROBE(C09_C08_C06_C10_assign_zi)
{
    assign<cplx, int>();
}
PROBE(C09_C08_C06_C10_assign_move_zi)
{
    assign_move<cplx, int>();
}
PROBE(C09_C08_C06_C10_vec_copy_zi)
{
    vec_copy<cplx, int>();
}
PROBE(C09_C08_C06_C10_vec_move_zi)
{
    vec_move<cplx, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_zi)
{
    vec_assign<cplx, int>();
}
PROBE(C09_C08_C06_C10_vec_assign_move_zi)
{
    vec_assign_move<cplx, int>();
}
