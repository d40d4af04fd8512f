// Written by tools/gen_tpl.py from text.tpl.
// Printed forms of vectors, matrices and models (C34).
#include "vfio.hpp"
template <typename T> static double re_(const T &x)
{
    return double(std::real(x));
}
template <typename T> static double im_(const T &x)
{
    return double(std::imag(x));
}
/// The tokens from k on are the letters of the text.
template <int D = 40> static void letters(const char *tag, const size_t *kind, size_t k, const char *s)
{
    if (*s != 0) {
        vf_eq_n(tag, kind[k], static_cast<size_t>(*s));
        if constexpr (D > 0)
            letters<D - 1>(tag, kind, k + 1, s + 1);
    }
}

/// Every element is as wide as the longest.
template <typename F> static void aligned(const vfio::record &R, size_t n, F re, F im)
{
    size_t p = vf_n("precision");
    for (size_t k = 0; k < n; ++k) {
        vf_eq_n("every element is printed as wide as the others", R.wid[k], R.wid[0]);
        vf_true("wide enough for every element", static_cast<int>(R.wid[0]) >= vf_len(re[k], im[k], p));
    }
}


template <typename T> static void t_width()
{
    vf_assume(vf_n("precision") < 100);
    VEC(T, v, "v", 3);
    MAT(T, A, "A", 2, 2);
    double re[7], im[7];
    for (size_t k = 0; k < 7; ++k) {
        re[k] = k < 3 ? re_(v[k]) : re_(A((k - 3) / 2, (k - 3) % 2));
        im[k] = k < 3 ? im_(v[k]) : im_(A((k - 3) / 2, (k - 3) % 2));
        vf_assume(vf_len(re[k], im[k], vf_n("precision")) > 0 && vf_len(re[k], im[k], vf_n("precision")) < 1000);
    }
    vfio::record R, S, F, G;
    vfio::vf_ostream a(&R), b(&S);
    vfio::vf_ofstream c(&F), d(&G);
    a << v;
    b << A;
    aligned(R, 3, re, im);
    aligned(S, 4, re + 3, im + 3);
    const Matrix<T> &B = A;
    c << v;
    d << B;
}

PROBE(C34_width_d)
{
    t_width<double>();
}

PROBE(C34_width_z)
{
    t_width<cplx>();
}

PROBE(C34_width_i)
{
    t_width<int>();
}

PROBE(C34_width_f)
{
    t_width<float>();
}

template <typename T> static void t_show_v()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << A;
    vf_eq_n("every element once", R.n, n);
    vf_eq_n("nothing after the last", R.sep[n], 0);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("an element", R.kind[i], vfio::ELEMENT);
    vf::eq("element in order", R.re[i], re_(A[i]));
    vf::eq("element in order", R.im[i], im_(A[i]));
    vf_assume(i > 0);
    vf_eq_n("blank between", R.sep[i], 1);
}

PROBE(C34_show_v_d)
{
    t_show_v<double>();
}

PROBE(C34_show_v_z)
{
    t_show_v<cplx>();
}

PROBE(C34_show_v_i)
{
    t_show_v<int>();
}

template <typename T> static void t_show_m()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << A;
    vf_eq_n("every element once", R.n, n * m);
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("an element", R.kind[i * m + j], vfio::ELEMENT);
    vf::eq("element in order", R.re[i * m + j], re_(A(i, j)));
    vf::eq("element in order", R.im[i * m + j], im_(A(i, j)));
    vf_assume(j > 0);
    vf_eq_n("blank between", R.sep[i * m + j], 1);
}

PROBE(C34_show_m_d)
{
    t_show_m<double>();
}

PROBE(C34_show_m_z)
{
    t_show_m<cplx>();
}

PROBE(C34_show_m_i)
{
    t_show_m<int>();
}

template <typename T> static void t_show_small()
{
    MAT(T, A, "A", 3, 2);
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << A;
    vf_eq_n("every element once", R.n, 6);
    vf_eq_n("nothing after the last", R.sep[6], 0);
    for (size_t i = 0; i < 3; ++i)
        for (size_t j = 0; j < 2; ++j) {
            vf::eq("element in order", R.re[2 * i + j], re_(A(i, j)));
            vf::eq("element in order", R.im[2 * i + j], im_(A(i, j)));
            if (j > 0)
                vf_eq_n("blank between", R.sep[2 * i + j], 1);
            else if (i > 0)
                vf_eq_n("a line for each row", R.sep[2 * i], 2);
        }
}

PROBE(C34_show_small_d)
{
    t_show_small<double>();
}

PROBE(C34_show_small_z)
{
    t_show_small<cplx>();
}

template <typename T> static void t_show_view()
{
    MAT(T, A, "A", 3, 3);
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << View<Matrix<T>>(&A, Range{ 1, 3 }, Range{ 0, 2 });
    vf_eq_n("every element once", R.n, 4);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j)
            vf::eq("element in order", R.re[2 * i + j], A(i + 1, j));
}

PROBE(C34_show_view_d)
{
    t_show_view<double>();
}

PROBE(C34_show_range)
{
    Range r{ vf_n("a"), vf_n("b") };
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << r;
    vf_eq_n("tokens", R.n, 5);
    vf_eq_n("bracket", R.kind[0], '[');
    vf_eq_n("start", R.cnt[1], r.start);
    vf_eq_n("comma", R.kind[2], ',');
    vf_eq_n("stop", R.cnt[3], r.stop);
    vf_eq_n("bracket", R.kind[4], ']');

}

template <typename T> static void t_dump_v()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    auto s = malg::dump_vector("xy", A);
    vf_eq_n("every element once", s.n, n + 3);
    letters("name", s.kind, 0, "xy=");
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("an element", s.kind[3 + i], vfio::ELEMENT);
    vf::eq("element in order", s.re[3 + i], re_(A[i]));
    vf::eq("element in order", s.im[3 + i], im_(A[i]));
    vf_eq_n("blank between", s.sep[3 + i], 1);
}

PROBE(C34_dump_v_d)
{
    t_dump_v<double>();
}

PROBE(C34_dump_v_z)
{
    t_dump_v<cplx>();
}

template <typename T> static void t_dump_m()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    auto s = malg::dump_matrix("xy", A);
    vf_eq_n("every element once", s.n, n * m + 3);
    letters("name", s.kind, 0, "xy=");
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n && j < m);
    vf_eq_n("an element", s.kind[3 + i * m + j], vfio::ELEMENT);
    vf::eq("element in order", s.re[3 + i * m + j], re_(A(i, j)));
    vf::eq("element in order", s.im[3 + i * m + j], im_(A(i, j)));
}

PROBE(C34_dump_m_d)
{
    t_dump_m<double>();
}

PROBE(C34_dump_m_z)
{
    t_dump_m<cplx>();
}

template <typename T> static void t_matlab_v()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    auto s = malg::to_matlab("xy", A);
    vf_eq_n("every element once", s.n, n + 5);
    letters("opening", s.kind, 0, "xy=[");
    vf_eq_n("closing", s.kind[4 + n], ']');
    vf_eq_n("nothing after the last", s.sep[4 + n], 0);
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("an element", s.kind[4 + i], vfio::ELEMENT);
    vf::eq("element in order", s.re[4 + i], re_(A[i]));
    vf::eq("element in order", s.im[4 + i], im_(A[i]));
    vf_assume(i > 0);
    vf_true("blank between", s.sep[4 + i] != 0);
}

PROBE(C34_matlab_v_d)
{
    t_matlab_v<double>();
}

PROBE(C34_matlab_v_z)
{
    t_matlab_v<cplx>();
}

PROBE(C34_matlab_v_i)
{
    t_matlab_v<int>();
}

template <typename T> static void t_matlab_m()
{
    auto &A = ABS(T, "A");
    auto n = A.rows(), m = A.cols();
    auto s = malg::to_matlab("xy", A);
    vf_eq_n("every element once", s.n, n * (m + 3) + 5);
    letters("opening", s.kind, 0, "xy=[");
    vf_eq_n("closing", s.kind[4 + n * (m + 3)], ']');
    auto i = vf_n("i"), j = vf_n("j");
    vf_assume(i < n);
    vf_eq_n("row", s.kind[4 + i * (m + 3)], '[');
    vf_eq_n("row closed", s.kind[4 + i * (m + 3) + m + 1], ']');
    vf_eq_n("row closed", s.kind[4 + i * (m + 3) + m + 2], ';');
    vf_assume(j < m);
    vf_eq_n("an element", s.kind[4 + i * (m + 3) + 1 + j], vfio::ELEMENT);
    vf::eq("element in order", s.re[4 + i * (m + 3) + 1 + j], re_(A(i, j)));
}

PROBE(C34_matlab_m_d)
{
    t_matlab_m<double>();
}

PROBE(C34_matlab_m_i)
{
    t_matlab_m<int>();
}

template <typename T> static void t_matlab_small()
{
    MAT(T, A, "A", 2, 3);
    auto s = malg::to_matlab("x", A);
    vf_eq_n("every element once", s.n, 16);
    letters("opening", s.kind, 0, "x=[[");
    letters("between", s.kind, 7, "];[");
    letters("closing", s.kind, 13, "];]");
    vf_eq_n("nothing after the last", s.sep[7], 0);
    vf_eq_n("nothing after the last", s.sep[13], 0);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 3; ++j) {
            vf::eq("element in order", s.re[4 + 6 * i + j], A(i, j));
            if (j > 0)
                vf_true("blank between", s.sep[4 + 6 * i + j] != 0);
        }
}

PROBE(C34_matlab_small_d)
{
    t_matlab_small<double>();
}

template <typename T> static void t_matlab_mz()
{
    MAT(T, A, "A", 2, 2);
    auto s = malg::to_matlab("x", A);
    vf_eq_n("every element once", s.n, 22);
    letters("opening", s.kind, 0, "x=[[");
    letters("between", s.kind, 10, "];[");
    letters("closing", s.kind, 19, "];]");
    vf_eq_n("nothing after the last", s.sep[10], 0);
    vf_eq_n("nothing after the last", s.sep[19], 0);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j) {
            size_t k = 4 + 9 * i + 3 * j;
            vf_eq_n("real part", s.kind[k], vfio::ELEMENT);
            vf::eq("real part", s.re[k], A(i, j).real());
            vf_eq_n("signed imaginary part", s.kind[k + 1], vfio::SIGNED);
            vf::eq("imaginary part", s.re[k + 1], A(i, j).imag());
            vf_eq_n("unit", s.kind[k + 2], 'i');
            if (j > 0)
                vf_true("blank between", s.sep[k] != 0);
        }
}

PROBE(C34_matlab_mz_z)
{
    t_matlab_mz<cplx>();
}

template <typename T> static void t_cpp_v()
{
    auto n = vf_n("n");
    VEC(T, A, "A", n);
    vf_assume(n > 0);
    auto s = malg::to_cpp("x", "T", A);
    vf_eq_n("every element once", s.n, 2 * n + 18);
    letters("declaration", s.kind, 0, "malg::Vector<T>x={");
    vf_eq_n("closing", s.kind[17 + 2 * n], '}');
    auto i = vf_n("i");
    vf_assume(i < n);
    vf_eq_n("an element", s.kind[18 + 2 * i], vfio::ELEMENT);
    vf::eq("element in order", s.re[18 + 2 * i], re_(A[i]));
    vf_assume(i + 1 < n);
    vf_eq_n("comma between", s.kind[19 + 2 * i], ',');
}

PROBE(C34_cpp_v_d)
{
    t_cpp_v<double>();
}

PROBE(C34_cpp_v_i)
{
    t_cpp_v<int>();
}

template <typename T> static void t_cpp_v0()
{
    VEC(T, A, "A", 0);
    auto s = malg::to_cpp("x", "T", A);
    letters("declaration", s.kind, 0, "malg::Vector<T>x={}");
    vf_eq_n("nothing else", s.n, 19);
}

PROBE(C34_cpp_v0_d)
{
    t_cpp_v0<double>();
}

PROBE(C34_cpp_v0_i)
{
    t_cpp_v0<int>();
}

PROBE(C34_cpp_v0_z)
{
    t_cpp_v0<cplx>();
}

template <typename T> static void t_cpp_small()
{
    MAT(T, A, "A", 2, 3);
    auto s = malg::to_cpp("x", "T", A);
    letters("declaration", s.kind, 0, "malg::Matrix<T>x={{");
    vf_eq_n("every element once", s.n, 34);
    for (size_t i = 0; i < 2; ++i) {
        for (size_t j = 0; j < 3; ++j) {
            vf_eq_n("an element", s.kind[19 + 8 * i + 2 * j], vfio::ELEMENT);
            vf::eq("element in order", s.re[19 + 8 * i + 2 * j], A(i, j));
            vf_eq_n("comma between", s.kind[20 + 8 * i + 2 * j], j < 2 ? ',' : '}');
        }
    }
    letters("rows apart", s.kind, 25, ",{");
    letters("closing", s.kind, 33, "}");
}

PROBE(C34_cpp_small_d)
{
    t_cpp_small<double>();
}

template <typename T> static void t_cpp_mz()
{
    MAT(T, A, "A", 1, 2);
    auto s = malg::to_cpp("x", "T", A);
    letters("declaration", s.kind, 0, "malg::Matrix<T>x={{");
    vf_eq_n("every element once", s.n, 28);
    for (size_t j = 0; j < 2; ++j) {
        vf::eq("real part", s.re[19 + 4 * j], A(0, j).real());
        vf_eq_n("signed imaginary part", s.kind[20 + 4 * j], vfio::SIGNED);
        vf::eq("imaginary part", s.re[20 + 4 * j], A(0, j).imag());
        vf_eq_n("unit", s.kind[21 + 4 * j], 'i');
    }
    vf_eq_n("comma between", s.kind[22], ',');
    letters("closing", s.kind, 26, "}}");
}

PROBE(C34_cpp_mz_z)
{
    t_cpp_mz<cplx>();
}

template <typename T> static void t_cpp_vz()
{
    VEC(T, A, "A", 2);
    auto s = malg::to_cpp("x", "T", A);
    letters("declaration", s.kind, 0, "malg::Vector<T>x={");
    vf_eq_n("every element once", s.n, 26);
    for (size_t j = 0; j < 2; ++j) {
        vf::eq("real part", s.re[18 + 4 * j], A[j].real());
        vf_eq_n("signed imaginary part", s.kind[19 + 4 * j], vfio::SIGNED);
        vf::eq("imaginary part", s.re[19 + 4 * j], A[j].imag());
        vf_eq_n("unit", s.kind[20 + 4 * j], 'i');
    }
    vf_eq_n("comma between", s.kind[21], ',');
}

PROBE(C34_cpp_vz_z)
{
    t_cpp_vz<cplx>();
}

template <typename T> static void t_model()
{
    MAT(T, A, "A", 2, 2);
    MAT(T, B, "B", 2, 1);
    MAT(T, C, "C", 1, 2);
    MAT(T, D, "D", 1, 1);
    malg::control::StateSpace<T> s(A, B, C, D);
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << s;
    letters("A", R.kind, 0, "A=");
    for (size_t k = 0; k < 4; ++k)
        vf::eq("A", R.re[2 + k], A(k / 2, k % 2));
    letters("B", R.kind, 6, "B=");
    vf::eq("B", R.re[8], B(0, 0));
    vf::eq("B", R.re[9], B(1, 0));
    letters("C", R.kind, 10, "C=");
    vf::eq("C", R.re[12], C(0, 0));
    vf::eq("C", R.re[13], C(0, 1));
    letters("D", R.kind, 14, "D=");
    vf::eq("D", R.re[16], D(0, 0));
}

PROBE(C34_model_d)
{
    t_model<double>();
}

template <typename T> static void t_model_z()
{
    MAT(T, A, "A", 2, 2);
    MAT(T, B, "B", 2, 1);
    MAT(T, C, "C", 1, 2);
    MAT(T, D, "D", 1, 1);
    T dt = vf::in<T>::at("dt", 0);
    malg::control::DiscreteStateSpace<T> s(A, B, C, D, dt);
    vfio::record R;
    vfio::vf_ostream out(&R);
    out << s;
    letters("A", R.kind, 0, "A=");
    for (size_t k = 0; k < 4; ++k)
        vf::eq("A", R.re[2 + k], A(k / 2, k % 2));
    vf::eq("B", R.re[8], B(0, 0));
    vf::eq("B", R.re[9], B(1, 0));
    vf::eq("C", R.re[12], C(0, 0));
    vf::eq("C", R.re[13], C(0, 1));
    vf::eq("D", R.re[16], D(0, 0));
    letters("sample time", R.kind, 17, "Sampletime:");
    vf::eq("sample time", R.re[28], dt);
}

PROBE(C34_model_z_d)
{
    t_model_z<double>();
}
