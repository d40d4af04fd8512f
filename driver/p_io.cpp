// Written by tools/gen_tpl.py from io.tpl.
// The file form of vectors and matrices (C26).
#include "vfio.hpp"


template <typename T> static void t_write_v()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vf_eq_n("tokens", R.n, n + 2);
    vf_eq_n("kind letter", R.kind[0], 'V');
    vf_eq_n("size", R.kind[1], vfio::COUNT);
    vf_eq_n("size", R.cnt[1], n);
    vf_true("separated", R.sep[1] != 0);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("element", R.kind[2 + i], vfio::ELEMENT);
    vf::eq("element in order", R.re[2 + i], double(std::real(A[i])));
    vf::eq("element in order", R.im[2 + i], double(std::imag(A[i])));
    vf_true("separated", R.sep[2 + i] != 0);
}

PROBE(C26_write_v_d)
{
    t_write_v<double>();
}

PROBE(C26_write_v_z)
{
    t_write_v<cplx>();
}

PROBE(C26_write_v_i)
{
    t_write_v<int>();
}

template <typename T> static void t_write_m()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vf_eq_n("tokens", R.n, n * m + 3);
    vf_eq_n("kind letter", R.kind[0], 'M');
    vf_eq_n("rows", R.kind[1], vfio::COUNT);
    vf_eq_n("rows", R.cnt[1], n);
    vf_eq_n("columns", R.kind[2], vfio::COUNT);
    vf_eq_n("columns", R.cnt[2], m);
    vf_true("separated", R.sep[1] != 0);
    vf_true("separated", R.sep[2] != 0);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    auto k = 3 + i * m + j;
    vf_eq_n("element", R.kind[k], vfio::ELEMENT);
    vf::eq("element in order", R.re[k], double(std::real(A(i, j))));
    vf::eq("element in order", R.im[k], double(std::imag(A(i, j))));
}

PROBE(C26_write_m_d)
{
    t_write_m<double>();
}

PROBE(C26_write_m_z)
{
    t_write_m<cplx>();
}

PROBE(C26_write_m_i)
{
    t_write_m<int>();
}

template <typename T> static void t_write_gap()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_assume(j > 0);
    vf_true("separated", R.sep[3 + i * m + j] != 0);
}

PROBE(C26_write_gap_d)
{
    t_write_gap<double>();
}

template <typename T> static void t_write_line()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vf_assume(n > 0 && m > 0);
    vf_true("separated", R.sep[3] != 0);
    auto i = vf_n("i");
    vf_assume(i + 1 < n);
    vf_true("separated", R.sep[3 + (i + 1) * m] != 0);
}

PROBE(C26_write_line_d)
{
    t_write_line<double>();
}

template <typename T> static void t_write_two()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A << A;
    vf_true("separated from what comes next", R.sep[n + 2] != 0);
}

PROBE(C26_write_two_d)
{
    t_write_two<double>();
}

template <typename T> static void t_write_small()
{
    MAT(T, A, "A", 2, 3);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vf_eq_n("tokens", R.n, 9);
    vf_eq_n("rows", R.cnt[1], 2);
    vf_eq_n("columns", R.cnt[2], 3);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 3; ++j) {
            vf::eq("element in order", R.re[3 + 3 * i + j], double(A(i, j)));
            vf_true("separated", R.sep[3 + 3 * i + j] != 0);
        }
}

PROBE(C26_write_small_d)
{
    t_write_small<double>();
}

PROBE(C26_write_small_i)
{
    t_write_small<int>();
}

template <typename T> static void t_read_v()
{
    auto k = vf_n("k"), n = vf_n("n");
    VEC(T, A, "A", k);
    vf_assume(vf_c("letter") == 'V');
    vf_assume(vf_in_u("count", 1) == n);
    vfio::vf_ifstream in(nullptr, n + 2);
    in.sure = true;
    in >> A;
    vf_eq_n("length", A.size(), n);
    vf::stored(A);
    vf_eq_n("consumed", in.pos, n + 2);
    vf_true("stream", in.fine);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element in order", A[i], vf::in<T>::at("number", 2 + i));
}

PROBE(C26_read_v_d)
{
    t_read_v<double>();
}

PROBE(C26_read_v_z)
{
    t_read_v<cplx>();
}

PROBE(C26_read_v_i)
{
    t_read_v<int>();
}

PROBE(C26_read_v_f)
{
    t_read_v<float>();
}

template <typename T> static void t_read_m()
{
    auto k = vf_n("k"), l = vf_n("l"), n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "A", k, l);
    vf_assume(vf_c("letter") == 'M');
    vf_assume(vf_in_u("count", 1) == n);
    vf_assume(vf_in_u("count", 2) == m);
    vfio::vf_ifstream in(nullptr, n * m + 3);
    in.sure = true;
    in >> A;
    vf_eq_n("rows", A.rows(), n);
    vf_eq_n("columns", A.cols(), m);
    vf::stored(A);
    vf_eq_n("consumed", in.pos, n * m + 3);
    vf_true("stream", in.fine);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element in order", A(i, j), vf::in<T>::at("number", 3 + i * m + j));
}

PROBE(C26_read_m_d)
{
    t_read_m<double>();
}

PROBE(C26_read_m_z)
{
    t_read_m<cplx>();
}

PROBE(C26_read_m_i)
{
    t_read_m<int>();
}

PROBE(C26_read_m_f)
{
    t_read_m<float>();
}

template <typename T> static void t_trip_v()
{
    auto k = vf_n("k"), n = vf_n("n");
    VEC(T, A, "A", n);
    VEC(T, B, "B", k);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vfio::vf_ifstream in(&R, R.n);
    in.sure = true;
    in >> B;
    vf_eq_n("length", B.size(), n);
    vf_eq_n("consumed", in.pos, R.n);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf::eq("element", B[i], A[i]);
}

PROBE(C26_trip_v_d)
{
    t_trip_v<double>();
}

PROBE(C26_trip_v_z)
{
    t_trip_v<cplx>();
}

PROBE(C26_trip_v_i)
{
    t_trip_v<int>();
}

template <typename T> static void t_trip_m()
{
    auto k = vf_n("k"), l = vf_n("l"), n = vf_n("n"), m = vf_n("m");
    MAT(T, A, "A", n, m);
    MAT(T, B, "B", k, l);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vfio::vf_ifstream in(&R, R.n);
    in.sure = true;
    in >> B;
    vf_eq_n("rows", B.rows(), n);
    vf_eq_n("columns", B.cols(), m);
    vf_eq_n("consumed", in.pos, R.n);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf::eq("element", B(i, j), A(i, j));
}

PROBE(C26_trip_m_d)
{
    t_trip_m<double>();
}

PROBE(C26_trip_m_z)
{
    t_trip_m<cplx>();
}

template <typename T> static void t_trip_m23()
{
    MAT(T, A, "A", 2, 3);
    MAT(T, B, "B", 3, 1);
    vfio::record R;
    vfio::vf_ofstream out(&R);
    out << A;
    vfio::vf_ifstream in(&R, R.n);
    in.sure = true;
    in >> B;
    vf_eq_n("rows", B.rows(), 2);
    vf_eq_n("columns", B.cols(), 3);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 3; ++j)
            vf::eq("element", B(i, j), A(i, j));
}

PROBE(C26_trip_m23_d)
{
    t_trip_m23<double>();
}

template <typename T> static void t_wrong_v()
{
    auto k = vf_n("k");
    VEC(T, A, "A", k);
    vf_assume(vf_c("letter") != 'V');
    vfio::vf_ifstream in(nullptr, vf_n("end"));
    in >> A;
    vf_eq_n("length kept", A.size(), k);
    auto i = vf_n("i");
    vf_assume(i < k);
    vf::eq("element kept", A[i], vf::in<T>::at("A", i));
}

PROBE(C26_C08_wrong_v_d)
{
    t_wrong_v<double>();
}

PROBE(C26_C08_wrong_v_z)
{
    t_wrong_v<cplx>();
}

PROBE(C26_C08_wrong_v_i)
{
    t_wrong_v<int>();
}

template <typename T> static void t_wrong_m()
{
    auto k = vf_n("k"), l = vf_n("l");
    MAT(T, A, "A", k, l);
    vf_assume(vf_c("letter") != 'M');
    vfio::vf_ifstream in(nullptr, vf_n("end"));
    in >> A;
    vf_eq_n("rows kept", A.rows(), k);
    vf_eq_n("columns kept", A.cols(), l);
    auto i = vf_n("i");
    vf_assume(i < k * l);
    vf::eq("element kept", A.data()[i], vf::in<T>::at("A", i));
}

PROBE(C26_C08_wrong_m_d)
{
    t_wrong_m<double>();
}

PROBE(C26_C08_wrong_m_z)
{
    t_wrong_m<cplx>();
}

PROBE(C26_C08_wrong_m_i)
{
    t_wrong_m<int>();
}

template <typename T> static void t_ends_v()
{
    auto k = vf_n("k"), e = vf_n("end");
    VEC(T, A, "A", k);
    vf_assume(e < 2);
    vfio::vf_ifstream in(nullptr, e);
    in.zero = vf_b("zero");
    in >> A;
    vf_eq_n("length kept", A.size(), k);
    auto i = vf_n("i");
    vf_assume(i < k);
    vf::eq("element kept", A[i], vf::in<T>::at("A", i));
}

PROBE(C26_C08_ends_v_d)
{
    t_ends_v<double>();
}

PROBE(C26_C08_ends_v_z)
{
    t_ends_v<cplx>();
}

PROBE(C26_C08_ends_v_i)
{
    t_ends_v<int>();
}

template <typename T> static void t_ends_m()
{
    auto k = vf_n("k"), l = vf_n("l"), e = vf_n("end");
    MAT(T, A, "A", k, l);
    vf_assume(e < 3);
    vfio::vf_ifstream in(nullptr, e);
    in.zero = vf_b("zero");
    in >> A;
    vf_eq_n("rows kept", A.rows(), k);
    vf_eq_n("columns kept", A.cols(), l);
    auto i = vf_n("i");
    vf_assume(i < k * l);
    vf::eq("element kept", A.data()[i], vf::in<T>::at("A", i));
}

PROBE(C26_C08_ends_m_d)
{
    t_ends_m<double>();
}

PROBE(C26_C08_ends_m_z)
{
    t_ends_m<cplx>();
}

PROBE(C26_C08_ends_m_i)
{
    t_ends_m<int>();
}

template <typename T> static void t_short_v()
{
    VEC(T, A, "A", 1);
    vf_assume(vf_c("letter") == 'V');
    vf_assume(vf_in_u("count", 1) == 3);
    vfio::vf_ifstream in(nullptr, 3);
    in.zero = vf_b("zero");
    in >> A;
    vf_eq_n("length", A.size(), 3);
    vf::stored(A);
    vf_true("stream", !in.fine);
    vf::eq("element that is there", A[0], vf::in<T>::at("number", 2));
    vf::eq("element that is not there", A[2], T(0));
}

PROBE(C26_C08_short_v_d)
{
    t_short_v<double>();
}

PROBE(C26_C08_short_v_i)
{
    t_short_v<int>();
}

template <typename T> static void t_short_m()
{
    MAT(T, A, "A", 1, 1);
    vf_assume(vf_c("letter") == 'M');
    vf_assume(vf_in_u("count", 1) == 2);
    vf_assume(vf_in_u("count", 2) == 2);
    vfio::vf_ifstream in(nullptr, 5);
    in.zero = vf_b("zero");
    in >> A;
    vf_eq_n("rows", A.rows(), 2);
    vf_eq_n("columns", A.cols(), 2);
    vf::stored(A);
    vf_true("stream", !in.fine);
    vf::eq("element that is there", A(0, 0), vf::in<T>::at("number", 3));
    vf::eq("element that is there", A(0, 1), vf::in<T>::at("number", 4));
    vf::eq("element that is not there", A(1, 1), T(0));
}

PROBE(C26_C08_short_m_d)
{
    t_short_m<double>();
}

PROBE(C26_C08_short_m_i)
{
    t_short_m<int>();
}
