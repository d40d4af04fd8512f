// Builders and conversions (C15); stacking, extraction, swapping, removal, transposition (C16).
#include "vfm.hpp"
#include "malg/linalg.hpp"
namespace utility = malg::utility;
namespace linalg = malg::linalg;
static size_t least(size_t a, size_t b) { return a < b ? a : b; }

//// eye C15_C08_C02 d z i f
    auto n = vf_n("n"), m = vf_n("m");
    T x = vf::in<T>::at("x", 0);
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::eye<T>(n, m, x);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), i == j ? x : T(0));

//// identity C15_C08 d z i f
    auto n = vf_n("n");
    T x = vf::in<T>::at("x", 0);
    vf_throws_iff("rejects zero sizes", n == 0);
    auto A = utility::identity<T>(n);
    auto B = utility::identity<T>(n, x);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    vf_eq_n("rows of scaled", B.rows(), n);
    vf_eq_n("cols of scaled", B.cols(), n);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    vf::eq("element", A(i, j), i == j ? T(1) : T(0));
    vf::eq("element of scaled", B(i, j), i == j ? x : T(0));

//// zeros C15_C08 d z i f
    auto n = vf_n("n"), m = vf_n("m");
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::zeros<T>(n, m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), T(0));

//// ones C15_C08 d z i f
    auto n = vf_n("n"), m = vf_n("m");
    vf_throws_iff("rejects zero sizes", n == 0 || m == 0);
    auto A = utility::ones<T>(n, m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", A(i, j), T(1));

//// vzeros C15_C08 d z i f
    auto n = vf_n("n");
    vf_throws_iff("rejects zero size", n == 0);
    auto a = utility::zeros<T>(n);
    vf_eq_n("size", a.size(), n);
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], T(0));

//// vones C15_C08 d z i f
    auto n = vf_n("n");
    vf_throws_iff("rejects zero size", n == 0);
    auto a = utility::ones<T>(n);
    vf_eq_n("size", a.size(), n);
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", a[i], T(1));

//// diagm C15_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto a = utility::diag(A);
    vf_eq_n("size", a.size(), least(A.rows(), A.cols()));
    vf::stored(a);
    auto i = vf_n("i");
    vf_assume(i < a.size());
    vf::eq("element", a[i], A(i, i));
    vf::eq("C06:operand", A(i, i), vf::in<T>::at("A", i * A.cols() + i));

//// diagv C15_C06_C08 d z i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto A = utility::diag(ca);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), n);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < n);
    vf::eq("element", A(i, j), i == j ? vf::in<T>::at("a", i) : T(0));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));

//// diagvv C15 d z i f
    auto n = vf_n("n");
    VEC(T, a, "a", n);
    auto b = utility::diag(utility::diag(a));
    vf_eq_n("size", b.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("diagonal of the diagonal matrix", b[i], a[i]);

//// to_matrix C15_C06_C08 d z i f
    auto n = vf_n("n");
    auto row = vf_b("row");
    VEC(T, a, "a", n);
    const auto &ca = a;
    auto A = utility::to_matrix(ca, row);
    vf_eq_n("rows", A.rows(), row ? 1 : n);
    vf_eq_n("cols", A.cols(), row ? n : 1);
    vf::stored(A);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", row ? A(0, i) : A(i, 0), vf::in<T>::at("a", i));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));

//// to_vector C15_C06_C08 d z i f
    auto n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "S", n, m);
    const auto &cA = A;
    auto a = utility::to_vector(cA);
    vf_eq_n("size", a.size(), n * m);
    vf::stored(a);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
#ifdef ROW_MAJOR
    vf::eq("element", a[i * m + j], A(i, j));
#else
    vf::eq("element", a[i + j * n], A(i, j));
#endif
    vf::eq("C06:operand", A[i * m + j], vf::in<T>::at("S", i * m + j));

//// ravel C15_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto a = utility::ravel(A);
    vf_eq_n("size", a.size(), A.rows() * A.cols());
    vf::stored(a);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
#ifdef ROW_MAJOR
    vf::eq("element", a[i * A.cols() + j], A(i, j));
#else
    vf::eq("element", a[i + j * A.rows()], A(i, j));
#endif

//// to_vector_to_matrix C15 d z i f
    auto n = vf_n("n");
    auto row = vf_b("row");
    VEC(T, a, "a", n);
    auto b = utility::to_vector(utility::to_matrix(a, row));
    vf_eq_n("size", b.size(), n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("back to the vector", b[i], a[i]);

//// vstack C16_C01_C06_C07_C08 dd zz ii ff di id zd dz fd
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:columns", A.cols() != B.cols());
    auto C = utility::vstack(A, B);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows() + B.rows());
    vf_eq_n("cols", C.cols(), A.cols());
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j"), k = vf_n("k");
    vf_assume(j < A.cols() && i < A.rows() && k < B.rows());
    vf::eq("upper", C(i, j), R(A(i, j)));
    vf::eq("lower", C(A.rows() + k, j), R(B(k, j)));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));

//// vstack_upper C16 dd zz ii
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_assume(A.cols() == B.cols());
    auto C = utility::vstack(A, B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < A.cols() && i < C.rows());
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    vf::eq("element", C(i, j), i < A.rows() ? R(A(i, j)) : R(B(i - A.rows(), j)));

//// vstackv C16_C01_C06_C07_C08 dd zz ii ff di id zd dz fd
    auto &A = ABS(T, "A");
    auto n = vf_n("n");
    VEC(U, b, "b", n);
    vf_throws_iff("C01:columns", A.cols() != n);
    auto C = utility::vstack(A, b);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows() + 1);
    vf_eq_n("cols", C.cols(), n);
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < n && i < A.rows());
    vf::eq("upper", C(i, j), R(A(i, j)));
    vf::eq("last row", C(A.rows(), j), R(b[j]));
    vf::eq("C06:operand", b[j], vf::in<U>::at("b", j));

//// hstack C16_C01_C06_C07_C08 dd zz ii ff di id zd dz fd
    auto &A = ABS(T, "A");
    auto &B = ABS(U, "B");
    vf_throws_iff("C01:rows", A.rows() != B.rows());
    auto C = utility::hstack(A, B);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), A.rows());
    vf_eq_n("cols", C.cols(), A.cols() + B.cols());
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j"), k = vf_n("k");
    vf_assume(i < A.rows() && j < A.cols() && k < B.cols());
    vf::eq("left", C(i, j), R(A(i, j)));
    vf::eq("right", C(i, A.cols() + k), R(B(i, k)));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));

//// hstackv C16_C01_C06_C07_C08 dd zz ii ff di id zd dz fd
    auto &A = ABS(T, "A");
    auto n = vf_n("n");
    VEC(U, b, "b", n);
    vf_throws_iff("C01:rows", A.rows() != n);
    auto C = utility::hstack(A, b);
    typedef std::remove_const_t<typename decltype(C)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("rows", C.rows(), n);
    vf_eq_n("cols", C.cols(), A.cols() + 1);
    vf::stored(C);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(j < A.cols() && i < n);
    vf::eq("left", C(i, j), R(A(i, j)));
    vf::eq("last column", C(i, A.cols()), R(b[i]));
    vf::eq("C06:operand", b[i], vf::in<U>::at("b", i));

//// concatenate C16_C06_C07_C08 dd zz ii ff di id zd dz fd
    auto n = vf_n("n"), m = vf_n("m");
    VEC(T, a, "a", n);
    VEC(U, b, "b", m);
    const auto &ca = a;
    const auto &cb = b;
    auto c = utility::concatenate(ca, cb);
    typedef std::remove_const_t<typename decltype(c)::value_type> R;
    static_assert(std::is_same_v<R, malg::extract_common_type_t<T, U>>);
    vf_eq_n("size", c.size(), n + m);
    vf::stored(c);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("first", c[i], R(a[i]));
    vf::eq("second", c[n + j], R(b[j]));
    vf::eq("C06:operand", a[i], vf::in<T>::at("a", i));

//// extract C16_C02_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c0 = vf_n("c0"), c1 = vf_n("c1");
    vf_throws_iff("C02:ranges", r0 >= r1 || c0 >= c1 || r0 > A.rows() || c0 > A.cols());
    auto B = utility::extract(A, r0, r1, c0, c1);
    vf_eq_n("rows", B.rows(), least(r1, A.rows()) - r0);
    vf_eq_n("cols", B.cols(), least(c1, A.cols()) - c0);
    vf::stored(B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < B.rows() && j < B.cols());
    vf::eq("element", B(i, j), A(r0 + i, c0 + j));

//// extract_all C16_C02 d z i f
    auto &A = ABS(T, "A");
    auto B = utility::extract(A);
    vf_eq_n("rows", B.rows(), A.rows());
    vf_eq_n("cols", B.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < B.rows() && j < B.cols());
    vf::eq("element", B(i, j), A(i, j));

//// extract_column C16_C02_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto r0 = vf_n("r0"), r1 = vf_n("r1"), c = vf_n("c");
    vf_throws_iff("C02:ranges", r0 >= r1 || r0 > A.rows() || c >= A.cols());
    auto b = utility::extract_column(A, c, r0, r1);
    vf_eq_n("size", b.size(), least(r1, A.rows()) - r0);
    vf::stored(b);
    auto i = vf_n("i");
    vf_assume(i < b.size());
    vf::eq("element", b[i], A(r0 + i, c));

//// extract_row C16_C02_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto c0 = vf_n("c0"), c1 = vf_n("c1"), r = vf_n("r");
    vf_throws_iff("C02:ranges", c0 >= c1 || c0 > A.cols() || r >= A.rows());
    auto b = utility::extract_row(A, r, c0, c1);
    vf_eq_n("size", b.size(), least(c1, A.cols()) - c0);
    vf::stored(b);
    auto i = vf_n("i");
    vf_assume(i < b.size());
    vf::eq("element", b[i], A(r, c0 + i));

//// extract_lines C16_C02 d z i f
    auto &A = ABS(T, "A");
    auto r = vf_n("r"), c = vf_n("c");
    vf_assume(r < A.rows() && c < A.cols());
    auto a = utility::extract_column(A, c);
    auto b = utility::extract_row(A, r);
    vf_eq_n("length of the column", a.size(), A.rows());
    vf_eq_n("length of the row", b.size(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("column", a[i], A(i, c));
    vf::eq("row", b[j], A(r, j));

//// swap_rows C16_C02 d z i f
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), c0 = vf_n("c0"), c1 = vf_n("c1");
    auto n = A.rows(), m = A.cols();
    vf_keeps_m("C01:operand kept", "A");
    vf_throws_iff("C02:rows exist", p >= n || q >= n);
    utility::swap_rows(A, p, q, c0, c1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    bool in = j >= c0 && j < c1;
    size_t from = in && i == p ? q : in && i == q ? p : i;
    vf::eq("element", A(i, j), vf::in<T>::at("A", from * m + j));

//// swap_cols C16_C02 d z i f
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q"), r0 = vf_n("r0"), r1 = vf_n("r1");
    auto n = A.rows(), m = A.cols();
    vf_keeps_m("C01:operand kept", "A");
    vf_throws_iff("C02:columns exist", p >= m || q >= m);
    utility::swap_cols(A, p, q, r0, r1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m);
    bool in = i >= r0 && i < r1;
    size_t from = in && j == p ? q : in && j == q ? p : j;
    vf::eq("element", A(i, j), vf::in<T>::at("A", i * m + from));

//// swap_rows_twice C16 d z
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q");
    auto n = A.rows(), m = A.cols();
    vf_assume(p < n && q < n);
    utility::swap_rows(A, p, q);
    utility::swap_rows(A, q, p);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("back", A(i, j), vf::in<T>::at("A", i * m + j));

//// swap_cols_twice C16 d z
    auto &A = ABSM(T, "A");
    auto p = vf_n("p"), q = vf_n("q");
    auto n = A.rows(), m = A.cols();
    vf_assume(p < m && q < m);
    utility::swap_cols(A, p, q);
    utility::swap_cols(A, p, q);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("back", A(i, j), vf::in<T>::at("A", i * m + j));

//// remove_row C16_C02_C08_C11 d z i f
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p");
    MAT(T, A, "S", n, m);
    vf_keeps("C01:operand kept", A.data(), "S");
    vf_throws_iff("C02:row exists", p >= n);
    auto &B = utility::remove_row(A, p);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), n - 1);
    vf_eq_n("cols", A.cols(), m);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n - 1 && j < m);
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", (i < p ? i : i + 1) * m + j));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", (i < p ? i : i + 1) + j * n));
#endif

//// remove_column C16_C02_C08_C11 d z i f
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p");
    MAT(T, A, "S", n, m);
    vf_keeps("C01:operand kept", A.data(), "S");
    vf_throws_iff("C02:column exists", p >= m);
    auto &B = utility::remove_column(A, p);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("cols", A.cols(), m - 1);
    vf::stored(A);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m - 1);
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", i * m + (j < p ? j : j + 1)));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", i + (j < p ? j : j + 1) * n));
#endif

//// transpose C16_C06_C08 d z i f
    auto &A = ABS(T, "A");
    auto B = linalg::transpose(A);
    vf_eq_n("rows", B.rows(), A.cols());
    vf_eq_n("cols", B.cols(), A.rows());
    vf::stored(B);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", B(j, i), A(i, j));
    vf::eq("C06:operand", A(i, j), vf::in<T>::at("A", i * A.cols() + j));

//// transpose_twice C16 d z i f
    auto &A = ABS(T, "A");
    auto B = linalg::transpose(linalg::transpose(A));
    vf_eq_n("rows", B.rows(), A.rows());
    vf_eq_n("cols", B.cols(), A.cols());
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < A.rows() && j < A.cols());
    vf::eq("element", B(i, j), A(i, j));

//// view_fn C13_C16 d z
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    vf_assume(p < n && q < m);
    auto v = utility::view(A);
    auto r = utility::row(A, p);
    auto c = utility::col(A, q);
    vf_eq_n("C13:rows of the whole view", v.rows(), n);
    vf_eq_n("C13:cols of the whole view", v.cols(), m);
    vf_eq_n("C13:rows of a row", r.rows(), 1);
    vf_eq_n("C13:cols of a row", r.cols(), m);
    vf_eq_n("C13:rows of a column", c.rows(), n);
    vf_eq_n("C13:cols of a column", c.cols(), 1);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_p("C13:view", &v(i, j), &A(i, j));
    vf_eq_p("C13:row", &r(0, j), &A(p, j));
    vf_eq_p("C13:column", &c(i, 0), &A(i, q));

//// reshape_fn C11 d z
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    vf_throws_iff("same number of elements", n * m != p * q);
    auto &B = utility::reshape(A, p, q);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), p);
    vf_eq_n("cols", A.cols(), q);
    auto i = vf_n("i");
    vf_assume(i < n * m);
    vf::eq("element", A[i], vf::in<T>::at("S", i));

//// resize_fn C11 d z
    auto n = vf_n("n"), m = vf_n("m"), p = vf_n("p"), q = vf_n("q");
    MAT(T, A, "S", n, m);
    auto &B = utility::resize(A, p, q);
    vf_eq_p("the matrix itself", &B, &A);
    vf_eq_n("rows", A.rows(), p);
    vf_eq_n("cols", A.cols(), q);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < least(n, p) && j < least(m, q));
#ifdef ROW_MAJOR
    vf::eq("element", A(i, j), vf::in<T>::at("S", i * m + j));
#else
    vf::eq("element", A(i, j), vf::in<T>::at("S", i + j * n));
#endif
