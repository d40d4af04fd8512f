// Written by tools/gen_tpl.py from seq.tpl.
// Non-zero search (C31) and spaced sequences (C32).
#include "vfm.hpp"
#include "malg/utility.hpp"
#include "malg/feq.hpp"
namespace utility = malg::utility;
namespace feq = malg::feq;
template <typename T> static bool nonzero(const T &x)
{
    return x != T(0);
}

/// The elements of A are non-zero exactly where the mask says.
template <unsigned N, unsigned Mask, typename T> static void given(const Matrix<T> &A)
{
    if constexpr (N != 0) {
        given<N - 1, Mask>(A);
        constexpr bool on = (Mask >> (N - 1)) & 1;
        if constexpr (std::is_floating_point_v<T>)
            vf_assume(feq::approximately_equal_to_zero(A[N - 1]) != on);
        else
            vf_assume((A[N - 1] != T(0)) == on);
    }
}
static constexpr size_t ones(unsigned mask)
{
    return mask ? (mask & 1) + ones(mask >> 1) : 0;
}
static constexpr size_t nth(unsigned mask, size_t k)
{
    return !(mask & 1) ? 1 + nth(mask >> 1, k) : k == 0 ? 0 : 1 + nth(mask >> 1, k - 1);
}
/// The values of V from the K-th to the N-th one are the positions in the mask, beginning with the one numbered From.
template <unsigned Mask, size_t From, size_t N, size_t K = 0, typename C> static void listed(C &V)
{
    if constexpr (K < N) {
        vf_eq_n("listed in order", V[K], std::integral_constant<size_t, nth(Mask, From + K)>::value);
        listed<Mask, From, N, K + 1>(V);
    }
}
template <typename T, unsigned R, unsigned C, unsigned M> static void nz()
{
    MAT(T, A, "A", R, C);
    given<R * C, M>(A);
    auto V = utility::flatnonzero(A);
    vf_eq_n("number of positions", V.size(), std::integral_constant<size_t, ones(M)>::value);
    listed<M, 0, ones(M)>(V);
    auto k = vf_n("k");
    vf_assume(k < R * C);
    vf::eq("C06:argument", A.data()[k], vf::in<T>::at("A", k));
}
template <typename T, unsigned R, unsigned C, unsigned M, unsigned N, bool F> static void fnd()
{
    MAT(T, A, "A", R, C);
    given<R * C, M>(A);
    auto V = utility::find(A, N, F);
    constexpr size_t have = ones(M), k = N < have ? N : have;
    vf::stored(V);
    vf_eq_n("number of positions", V.size(), k);
    if (k != 0)
        vf_eq_n("row for a row, else column", V.rows(), R == 1 ? 1 : k);
    listed<M, F ? 0 : have - k, k>(V);
}
template <typename T, unsigned R, unsigned C, unsigned M> static void fnda()
{
    MAT(T, A, "A", R, C);
    given<R * C, M>(A);
    auto V = utility::find(A);
    vf_eq_n("number of positions", V.size(), std::integral_constant<size_t, ones(M)>::value);
    constexpr size_t k = ones(M);
    if (k != 0)
        vf_eq_n("row for a row, else column", V.cols(), R == 1 ? k : 1);
    listed<M, 0, k>(V);
}
PROBE(C31_C02_C06_nz_i_1_3_0) { nz<int, 1, 3, 0>(); }
PROBE(C31_C02_C06_nz_i_1_3_1) { nz<int, 1, 3, 1>(); }
PROBE(C31_C02_C06_nz_i_1_3_2) { nz<int, 1, 3, 2>(); }
PROBE(C31_C02_C06_nz_i_1_3_3) { nz<int, 1, 3, 3>(); }
PROBE(C31_C02_C06_nz_i_1_3_4) { nz<int, 1, 3, 4>(); }
PROBE(C31_C02_C06_nz_i_1_3_5) { nz<int, 1, 3, 5>(); }
PROBE(C31_C02_C06_nz_i_1_3_6) { nz<int, 1, 3, 6>(); }
PROBE(C31_C02_C06_nz_i_1_3_7) { nz<int, 1, 3, 7>(); }
PROBE(C31_C02_C06_nz_d_3_1_0) { nz<double, 3, 1, 0>(); }
PROBE(C31_C02_C06_nz_d_3_1_1) { nz<double, 3, 1, 1>(); }
PROBE(C31_C02_C06_nz_d_3_1_2) { nz<double, 3, 1, 2>(); }
PROBE(C31_C02_C06_nz_d_3_1_3) { nz<double, 3, 1, 3>(); }
PROBE(C31_C02_C06_nz_d_3_1_4) { nz<double, 3, 1, 4>(); }
PROBE(C31_C02_C06_nz_d_3_1_5) { nz<double, 3, 1, 5>(); }
PROBE(C31_C02_C06_nz_d_3_1_6) { nz<double, 3, 1, 6>(); }
PROBE(C31_C02_C06_nz_d_3_1_7) { nz<double, 3, 1, 7>(); }
PROBE(C31_C02_C06_nz_z_1_2_0) { nz<cplx, 1, 2, 0>(); }
PROBE(C31_C02_C06_nz_z_1_2_1) { nz<cplx, 1, 2, 1>(); }
PROBE(C31_C02_C06_nz_z_1_2_2) { nz<cplx, 1, 2, 2>(); }
PROBE(C31_C02_C06_nz_z_1_2_3) { nz<cplx, 1, 2, 3>(); }
PROBE(C31_C02_C06_nz_i_2_2_0) { nz<int, 2, 2, 0>(); }
PROBE(C31_C02_C06_nz_i_2_2_1) { nz<int, 2, 2, 1>(); }
PROBE(C31_C02_C06_nz_i_2_2_2) { nz<int, 2, 2, 2>(); }
PROBE(C31_C02_C06_nz_i_2_2_3) { nz<int, 2, 2, 3>(); }
PROBE(C31_C02_C06_nz_i_2_2_4) { nz<int, 2, 2, 4>(); }
PROBE(C31_C02_C06_nz_i_2_2_5) { nz<int, 2, 2, 5>(); }
PROBE(C31_C02_C06_nz_i_2_2_6) { nz<int, 2, 2, 6>(); }
PROBE(C31_C02_C06_nz_i_2_2_7) { nz<int, 2, 2, 7>(); }
PROBE(C31_C02_C06_nz_i_2_2_8) { nz<int, 2, 2, 8>(); }
PROBE(C31_C02_C06_nz_i_2_2_9) { nz<int, 2, 2, 9>(); }
PROBE(C31_C02_C06_nz_i_2_2_10) { nz<int, 2, 2, 10>(); }
PROBE(C31_C02_C06_nz_i_2_2_11) { nz<int, 2, 2, 11>(); }
PROBE(C31_C02_C06_nz_i_2_2_12) { nz<int, 2, 2, 12>(); }
PROBE(C31_C02_C06_nz_i_2_2_13) { nz<int, 2, 2, 13>(); }
PROBE(C31_C02_C06_nz_i_2_2_14) { nz<int, 2, 2, 14>(); }
PROBE(C31_C02_C06_nz_i_2_2_15) { nz<int, 2, 2, 15>(); }
PROBE(C31_C02_C06_nz_d_2_2_0) { nz<double, 2, 2, 0>(); }
PROBE(C31_C02_C06_nz_d_2_2_1) { nz<double, 2, 2, 1>(); }
PROBE(C31_C02_C06_nz_d_2_2_2) { nz<double, 2, 2, 2>(); }
PROBE(C31_C02_C06_nz_d_2_2_3) { nz<double, 2, 2, 3>(); }
PROBE(C31_C02_C06_nz_d_2_2_4) { nz<double, 2, 2, 4>(); }
PROBE(C31_C02_C06_nz_d_2_2_5) { nz<double, 2, 2, 5>(); }
PROBE(C31_C02_C06_nz_d_2_2_6) { nz<double, 2, 2, 6>(); }
PROBE(C31_C02_C06_nz_d_2_2_7) { nz<double, 2, 2, 7>(); }
PROBE(C31_C02_C06_nz_d_2_2_8) { nz<double, 2, 2, 8>(); }
PROBE(C31_C02_C06_nz_d_2_2_9) { nz<double, 2, 2, 9>(); }
PROBE(C31_C02_C06_nz_d_2_2_10) { nz<double, 2, 2, 10>(); }
PROBE(C31_C02_C06_nz_d_2_2_11) { nz<double, 2, 2, 11>(); }
PROBE(C31_C02_C06_nz_d_2_2_12) { nz<double, 2, 2, 12>(); }
PROBE(C31_C02_C06_nz_d_2_2_13) { nz<double, 2, 2, 13>(); }
PROBE(C31_C02_C06_nz_d_2_2_14) { nz<double, 2, 2, 14>(); }
PROBE(C31_C02_C06_nz_d_2_2_15) { nz<double, 2, 2, 15>(); }
PROBE(C31_C02_C06_nz_u_2_1_0) { nz<unsigned, 2, 1, 0>(); }
PROBE(C31_C02_C06_nz_u_2_1_1) { nz<unsigned, 2, 1, 1>(); }
PROBE(C31_C02_C06_nz_u_2_1_2) { nz<unsigned, 2, 1, 2>(); }
PROBE(C31_C02_C06_nz_u_2_1_3) { nz<unsigned, 2, 1, 3>(); }
PROBE(C31_C02_C06_nz_i_1_1_0) { nz<int, 1, 1, 0>(); }
PROBE(C31_C02_C06_nz_i_1_1_1) { nz<int, 1, 1, 1>(); }
PROBE(C31_C02_C06_nz_d_0_0_0) { nz<double, 0, 0, 0>(); }
PROBE(C31_C02_C08_finda_i_1_3_0) { fnda<int, 1, 3, 0>(); }
PROBE(C31_C02_C08_finda_i_1_3_1) { fnda<int, 1, 3, 1>(); }
PROBE(C31_C02_C08_finda_i_1_3_2) { fnda<int, 1, 3, 2>(); }
PROBE(C31_C02_C08_finda_i_1_3_3) { fnda<int, 1, 3, 3>(); }
PROBE(C31_C02_C08_finda_i_1_3_4) { fnda<int, 1, 3, 4>(); }
PROBE(C31_C02_C08_finda_i_1_3_5) { fnda<int, 1, 3, 5>(); }
PROBE(C31_C02_C08_finda_i_1_3_6) { fnda<int, 1, 3, 6>(); }
PROBE(C31_C02_C08_finda_i_1_3_7) { fnda<int, 1, 3, 7>(); }
PROBE(C31_C02_C08_finda_d_3_1_0) { fnda<double, 3, 1, 0>(); }
PROBE(C31_C02_C08_finda_d_3_1_1) { fnda<double, 3, 1, 1>(); }
PROBE(C31_C02_C08_finda_d_3_1_2) { fnda<double, 3, 1, 2>(); }
PROBE(C31_C02_C08_finda_d_3_1_3) { fnda<double, 3, 1, 3>(); }
PROBE(C31_C02_C08_finda_d_3_1_4) { fnda<double, 3, 1, 4>(); }
PROBE(C31_C02_C08_finda_d_3_1_5) { fnda<double, 3, 1, 5>(); }
PROBE(C31_C02_C08_finda_d_3_1_6) { fnda<double, 3, 1, 6>(); }
PROBE(C31_C02_C08_finda_d_3_1_7) { fnda<double, 3, 1, 7>(); }
PROBE(C31_C02_C08_finda_i_2_2_0) { fnda<int, 2, 2, 0>(); }
PROBE(C31_C02_C08_finda_i_2_2_1) { fnda<int, 2, 2, 1>(); }
PROBE(C31_C02_C08_finda_i_2_2_2) { fnda<int, 2, 2, 2>(); }
PROBE(C31_C02_C08_finda_i_2_2_3) { fnda<int, 2, 2, 3>(); }
PROBE(C31_C02_C08_finda_i_2_2_4) { fnda<int, 2, 2, 4>(); }
PROBE(C31_C02_C08_finda_i_2_2_5) { fnda<int, 2, 2, 5>(); }
PROBE(C31_C02_C08_finda_i_2_2_6) { fnda<int, 2, 2, 6>(); }
PROBE(C31_C02_C08_finda_i_2_2_7) { fnda<int, 2, 2, 7>(); }
PROBE(C31_C02_C08_finda_i_2_2_8) { fnda<int, 2, 2, 8>(); }
PROBE(C31_C02_C08_finda_i_2_2_9) { fnda<int, 2, 2, 9>(); }
PROBE(C31_C02_C08_finda_i_2_2_10) { fnda<int, 2, 2, 10>(); }
PROBE(C31_C02_C08_finda_i_2_2_11) { fnda<int, 2, 2, 11>(); }
PROBE(C31_C02_C08_finda_i_2_2_12) { fnda<int, 2, 2, 12>(); }
PROBE(C31_C02_C08_finda_i_2_2_13) { fnda<int, 2, 2, 13>(); }
PROBE(C31_C02_C08_finda_i_2_2_14) { fnda<int, 2, 2, 14>(); }
PROBE(C31_C02_C08_finda_i_2_2_15) { fnda<int, 2, 2, 15>(); }
PROBE(C31_C02_C08_finda_z_1_2_0) { fnda<cplx, 1, 2, 0>(); }
PROBE(C31_C02_C08_finda_z_1_2_1) { fnda<cplx, 1, 2, 1>(); }
PROBE(C31_C02_C08_finda_z_1_2_2) { fnda<cplx, 1, 2, 2>(); }
PROBE(C31_C02_C08_finda_z_1_2_3) { fnda<cplx, 1, 2, 3>(); }
PROBE(C31_C02_C08_finda_d_0_3_0) { fnda<double, 0, 3, 0>(); }
PROBE(C31_C02_C08_find_i_1_3_7_0_first) { fnd<int, 1, 3, 7, 0, true>(); }
PROBE(C31_C02_C08_find_i_1_3_7_0_last) { fnd<int, 1, 3, 7, 0, false>(); }
PROBE(C31_C02_C08_find_i_1_3_7_1_first) { fnd<int, 1, 3, 7, 1, true>(); }
PROBE(C31_C02_C08_find_i_1_3_7_1_last) { fnd<int, 1, 3, 7, 1, false>(); }
PROBE(C31_C02_C08_find_i_1_3_7_2_first) { fnd<int, 1, 3, 7, 2, true>(); }
PROBE(C31_C02_C08_find_i_1_3_7_2_last) { fnd<int, 1, 3, 7, 2, false>(); }
PROBE(C31_C02_C08_find_i_1_3_7_3_first) { fnd<int, 1, 3, 7, 3, true>(); }
PROBE(C31_C02_C08_find_i_1_3_7_3_last) { fnd<int, 1, 3, 7, 3, false>(); }
PROBE(C31_C02_C08_find_i_1_3_7_4_first) { fnd<int, 1, 3, 7, 4, true>(); }
PROBE(C31_C02_C08_find_i_1_3_7_4_last) { fnd<int, 1, 3, 7, 4, false>(); }
PROBE(C31_C02_C08_find_i_1_3_6_0_first) { fnd<int, 1, 3, 6, 0, true>(); }
PROBE(C31_C02_C08_find_i_1_3_6_0_last) { fnd<int, 1, 3, 6, 0, false>(); }
PROBE(C31_C02_C08_find_i_1_3_6_1_first) { fnd<int, 1, 3, 6, 1, true>(); }
PROBE(C31_C02_C08_find_i_1_3_6_1_last) { fnd<int, 1, 3, 6, 1, false>(); }
PROBE(C31_C02_C08_find_i_1_3_6_2_first) { fnd<int, 1, 3, 6, 2, true>(); }
PROBE(C31_C02_C08_find_i_1_3_6_2_last) { fnd<int, 1, 3, 6, 2, false>(); }
PROBE(C31_C02_C08_find_i_1_3_6_3_first) { fnd<int, 1, 3, 6, 3, true>(); }
PROBE(C31_C02_C08_find_i_1_3_6_3_last) { fnd<int, 1, 3, 6, 3, false>(); }
PROBE(C31_C02_C08_find_i_1_3_5_0_first) { fnd<int, 1, 3, 5, 0, true>(); }
PROBE(C31_C02_C08_find_i_1_3_5_0_last) { fnd<int, 1, 3, 5, 0, false>(); }
PROBE(C31_C02_C08_find_i_1_3_5_1_first) { fnd<int, 1, 3, 5, 1, true>(); }
PROBE(C31_C02_C08_find_i_1_3_5_1_last) { fnd<int, 1, 3, 5, 1, false>(); }
PROBE(C31_C02_C08_find_i_1_3_5_2_first) { fnd<int, 1, 3, 5, 2, true>(); }
PROBE(C31_C02_C08_find_i_1_3_5_2_last) { fnd<int, 1, 3, 5, 2, false>(); }
PROBE(C31_C02_C08_find_i_1_3_5_3_first) { fnd<int, 1, 3, 5, 3, true>(); }
PROBE(C31_C02_C08_find_i_1_3_5_3_last) { fnd<int, 1, 3, 5, 3, false>(); }
PROBE(C31_C02_C08_find_i_1_3_3_0_first) { fnd<int, 1, 3, 3, 0, true>(); }
PROBE(C31_C02_C08_find_i_1_3_3_0_last) { fnd<int, 1, 3, 3, 0, false>(); }
PROBE(C31_C02_C08_find_i_1_3_3_1_first) { fnd<int, 1, 3, 3, 1, true>(); }
PROBE(C31_C02_C08_find_i_1_3_3_1_last) { fnd<int, 1, 3, 3, 1, false>(); }
PROBE(C31_C02_C08_find_i_1_3_3_2_first) { fnd<int, 1, 3, 3, 2, true>(); }
PROBE(C31_C02_C08_find_i_1_3_3_2_last) { fnd<int, 1, 3, 3, 2, false>(); }
PROBE(C31_C02_C08_find_i_1_3_3_3_first) { fnd<int, 1, 3, 3, 3, true>(); }
PROBE(C31_C02_C08_find_i_1_3_3_3_last) { fnd<int, 1, 3, 3, 3, false>(); }
PROBE(C31_C02_C08_find_d_3_1_7_0_first) { fnd<double, 3, 1, 7, 0, true>(); }
PROBE(C31_C02_C08_find_d_3_1_7_0_last) { fnd<double, 3, 1, 7, 0, false>(); }
PROBE(C31_C02_C08_find_d_3_1_7_1_first) { fnd<double, 3, 1, 7, 1, true>(); }
PROBE(C31_C02_C08_find_d_3_1_7_1_last) { fnd<double, 3, 1, 7, 1, false>(); }
PROBE(C31_C02_C08_find_d_3_1_7_2_first) { fnd<double, 3, 1, 7, 2, true>(); }
PROBE(C31_C02_C08_find_d_3_1_7_2_last) { fnd<double, 3, 1, 7, 2, false>(); }
PROBE(C31_C02_C08_find_d_3_1_7_3_first) { fnd<double, 3, 1, 7, 3, true>(); }
PROBE(C31_C02_C08_find_d_3_1_7_3_last) { fnd<double, 3, 1, 7, 3, false>(); }
PROBE(C31_C02_C08_find_d_3_1_7_4_first) { fnd<double, 3, 1, 7, 4, true>(); }
PROBE(C31_C02_C08_find_d_3_1_7_4_last) { fnd<double, 3, 1, 7, 4, false>(); }
PROBE(C31_C02_C08_find_d_3_1_5_0_first) { fnd<double, 3, 1, 5, 0, true>(); }
PROBE(C31_C02_C08_find_d_3_1_5_0_last) { fnd<double, 3, 1, 5, 0, false>(); }
PROBE(C31_C02_C08_find_d_3_1_5_1_first) { fnd<double, 3, 1, 5, 1, true>(); }
PROBE(C31_C02_C08_find_d_3_1_5_1_last) { fnd<double, 3, 1, 5, 1, false>(); }
PROBE(C31_C02_C08_find_d_3_1_5_2_first) { fnd<double, 3, 1, 5, 2, true>(); }
PROBE(C31_C02_C08_find_d_3_1_5_2_last) { fnd<double, 3, 1, 5, 2, false>(); }
PROBE(C31_C02_C08_find_d_3_1_5_3_first) { fnd<double, 3, 1, 5, 3, true>(); }
PROBE(C31_C02_C08_find_d_3_1_5_3_last) { fnd<double, 3, 1, 5, 3, false>(); }
PROBE(C31_C02_C08_find_d_3_1_3_0_first) { fnd<double, 3, 1, 3, 0, true>(); }
PROBE(C31_C02_C08_find_d_3_1_3_0_last) { fnd<double, 3, 1, 3, 0, false>(); }
PROBE(C31_C02_C08_find_d_3_1_3_1_first) { fnd<double, 3, 1, 3, 1, true>(); }
PROBE(C31_C02_C08_find_d_3_1_3_1_last) { fnd<double, 3, 1, 3, 1, false>(); }
PROBE(C31_C02_C08_find_d_3_1_3_2_first) { fnd<double, 3, 1, 3, 2, true>(); }
PROBE(C31_C02_C08_find_d_3_1_3_2_last) { fnd<double, 3, 1, 3, 2, false>(); }
PROBE(C31_C02_C08_find_d_3_1_3_3_first) { fnd<double, 3, 1, 3, 3, true>(); }
PROBE(C31_C02_C08_find_d_3_1_3_3_last) { fnd<double, 3, 1, 3, 3, false>(); }
PROBE(C31_C02_C08_find_d_3_1_1_0_first) { fnd<double, 3, 1, 1, 0, true>(); }
PROBE(C31_C02_C08_find_d_3_1_1_0_last) { fnd<double, 3, 1, 1, 0, false>(); }
PROBE(C31_C02_C08_find_d_3_1_1_1_first) { fnd<double, 3, 1, 1, 1, true>(); }
PROBE(C31_C02_C08_find_d_3_1_1_1_last) { fnd<double, 3, 1, 1, 1, false>(); }
PROBE(C31_C02_C08_find_d_3_1_1_2_first) { fnd<double, 3, 1, 1, 2, true>(); }
PROBE(C31_C02_C08_find_d_3_1_1_2_last) { fnd<double, 3, 1, 1, 2, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_0_first) { fnd<int, 2, 2, 15, 0, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_0_last) { fnd<int, 2, 2, 15, 0, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_1_first) { fnd<int, 2, 2, 15, 1, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_1_last) { fnd<int, 2, 2, 15, 1, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_2_first) { fnd<int, 2, 2, 15, 2, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_2_last) { fnd<int, 2, 2, 15, 2, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_3_first) { fnd<int, 2, 2, 15, 3, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_3_last) { fnd<int, 2, 2, 15, 3, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_4_first) { fnd<int, 2, 2, 15, 4, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_4_last) { fnd<int, 2, 2, 15, 4, false>(); }
PROBE(C31_C02_C08_find_i_2_2_15_5_first) { fnd<int, 2, 2, 15, 5, true>(); }
PROBE(C31_C02_C08_find_i_2_2_15_5_last) { fnd<int, 2, 2, 15, 5, false>(); }
PROBE(C31_C02_C08_find_i_2_2_13_0_first) { fnd<int, 2, 2, 13, 0, true>(); }
PROBE(C31_C02_C08_find_i_2_2_13_0_last) { fnd<int, 2, 2, 13, 0, false>(); }
PROBE(C31_C02_C08_find_i_2_2_13_1_first) { fnd<int, 2, 2, 13, 1, true>(); }
PROBE(C31_C02_C08_find_i_2_2_13_1_last) { fnd<int, 2, 2, 13, 1, false>(); }
PROBE(C31_C02_C08_find_i_2_2_13_2_first) { fnd<int, 2, 2, 13, 2, true>(); }
PROBE(C31_C02_C08_find_i_2_2_13_2_last) { fnd<int, 2, 2, 13, 2, false>(); }
PROBE(C31_C02_C08_find_i_2_2_13_3_first) { fnd<int, 2, 2, 13, 3, true>(); }
PROBE(C31_C02_C08_find_i_2_2_13_3_last) { fnd<int, 2, 2, 13, 3, false>(); }
PROBE(C31_C02_C08_find_i_2_2_13_4_first) { fnd<int, 2, 2, 13, 4, true>(); }
PROBE(C31_C02_C08_find_i_2_2_13_4_last) { fnd<int, 2, 2, 13, 4, false>(); }
PROBE(C31_C02_C08_find_i_2_2_10_0_first) { fnd<int, 2, 2, 10, 0, true>(); }
PROBE(C31_C02_C08_find_i_2_2_10_0_last) { fnd<int, 2, 2, 10, 0, false>(); }
PROBE(C31_C02_C08_find_i_2_2_10_1_first) { fnd<int, 2, 2, 10, 1, true>(); }
PROBE(C31_C02_C08_find_i_2_2_10_1_last) { fnd<int, 2, 2, 10, 1, false>(); }
PROBE(C31_C02_C08_find_i_2_2_10_2_first) { fnd<int, 2, 2, 10, 2, true>(); }
PROBE(C31_C02_C08_find_i_2_2_10_2_last) { fnd<int, 2, 2, 10, 2, false>(); }
PROBE(C31_C02_C08_find_i_2_2_10_3_first) { fnd<int, 2, 2, 10, 3, true>(); }
PROBE(C31_C02_C08_find_i_2_2_10_3_last) { fnd<int, 2, 2, 10, 3, false>(); }
PROBE(C31_C02_C08_find_i_2_2_1_0_first) { fnd<int, 2, 2, 1, 0, true>(); }
PROBE(C31_C02_C08_find_i_2_2_1_0_last) { fnd<int, 2, 2, 1, 0, false>(); }
PROBE(C31_C02_C08_find_i_2_2_1_1_first) { fnd<int, 2, 2, 1, 1, true>(); }
PROBE(C31_C02_C08_find_i_2_2_1_1_last) { fnd<int, 2, 2, 1, 1, false>(); }
PROBE(C31_C02_C08_find_i_2_2_1_2_first) { fnd<int, 2, 2, 1, 2, true>(); }
PROBE(C31_C02_C08_find_i_2_2_1_2_last) { fnd<int, 2, 2, 1, 2, false>(); }
PROBE(C31_C02_C08_find_i_2_2_0_0_first) { fnd<int, 2, 2, 0, 0, true>(); }
PROBE(C31_C02_C08_find_i_2_2_0_0_last) { fnd<int, 2, 2, 0, 0, false>(); }
PROBE(C31_C02_C08_find_i_2_2_0_1_first) { fnd<int, 2, 2, 0, 1, true>(); }
PROBE(C31_C02_C08_find_i_2_2_0_1_last) { fnd<int, 2, 2, 0, 1, false>(); }
PROBE(C31_C02_C08_find_z_1_2_3_0_first) { fnd<cplx, 1, 2, 3, 0, true>(); }
PROBE(C31_C02_C08_find_z_1_2_3_0_last) { fnd<cplx, 1, 2, 3, 0, false>(); }
PROBE(C31_C02_C08_find_z_1_2_3_1_first) { fnd<cplx, 1, 2, 3, 1, true>(); }
PROBE(C31_C02_C08_find_z_1_2_3_1_last) { fnd<cplx, 1, 2, 3, 1, false>(); }
PROBE(C31_C02_C08_find_z_1_2_3_2_first) { fnd<cplx, 1, 2, 3, 2, true>(); }
PROBE(C31_C02_C08_find_z_1_2_3_2_last) { fnd<cplx, 1, 2, 3, 2, false>(); }
PROBE(C31_C02_C08_find_z_1_2_3_3_first) { fnd<cplx, 1, 2, 3, 3, true>(); }
PROBE(C31_C02_C08_find_z_1_2_3_3_last) { fnd<cplx, 1, 2, 3, 3, false>(); }
PROBE(C31_C02_C08_find_z_1_2_1_0_first) { fnd<cplx, 1, 2, 1, 0, true>(); }
PROBE(C31_C02_C08_find_z_1_2_1_0_last) { fnd<cplx, 1, 2, 1, 0, false>(); }
PROBE(C31_C02_C08_find_z_1_2_1_1_first) { fnd<cplx, 1, 2, 1, 1, true>(); }
PROBE(C31_C02_C08_find_z_1_2_1_1_last) { fnd<cplx, 1, 2, 1, 1, false>(); }
PROBE(C31_C02_C08_find_z_1_2_1_2_first) { fnd<cplx, 1, 2, 1, 2, true>(); }
PROBE(C31_C02_C08_find_z_1_2_1_2_last) { fnd<cplx, 1, 2, 1, 2, false>(); }


template <typename T> static void t_lin()
{
    unsigned n = static_cast<unsigned>(vf_n("n"));
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    auto R = utility::linspace<T>(a, b, n);
    vf_eq_n("length", R.size(), n);
    vf::stored(R);
    auto i = vf_n("i");
    vf_assume(i < n);
    bool same = feq::approximately_equal(a, b);
    vf::eq("element", R[i], (n == 1 || same) ? b : a + (b - a) / T(n - 1) * T(i));
}

PROBE(C32_C02_lin_d)
{
    t_lin<double>();
}

PROBE(C32_C02_lin_f)
{
    t_lin<float>();
}

template <typename T> static void t_lin_ends()
{
    unsigned n = static_cast<unsigned>(vf_n("n"));
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    vf_assume(n > 1);
    vf_assume(!feq::approximately_equal(a, b));
    auto R = utility::linspace<T>(a, b, n);
    vf::eq("begins at the start", R[0], a);
    vf::eq("ends at the stop", R[n - 1], b);
    auto i = vf_n("i");
    vf_assume(i + 2 < n);
    vf::eq("constant step", R[i + 1] - R[i], R[i + 2] - R[i + 1]);
}

PROBE(C32_C02_lin_ends_d)
{
    t_lin_ends<double>();
}

PROBE(C32_C02_lin_ends_f)
{
    t_lin_ends<float>();
}

template <typename T> static void t_lin_default()
{
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    auto R = utility::linspace<T>(a, b);
    vf_eq_n("length", R.size(), 100);
}

PROBE(C32_C02_lin_default_d)
{
    t_lin_default<double>();
}

template <typename T> static void t_log()
{
    auto n = vf_n("n");
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0), base = vf::in<T>::at("c", 0);
    auto R = utility::logspace<T>(a, b, n, base);
    vf_eq_n("length", R.size(), n);
    vf::stored(R);
    auto i = vf_n("i");
    vf_assume(i < n);
    bool same = feq::approximately_equal(a, b);
    vf::eq("element", R[i], std::pow(base, (n == 1 || same) ? b : a + (b - a) / T(n - 1) * T(i)));
}

PROBE(C32_C02_log_d)
{
    t_log<double>();
}

PROBE(C32_C02_log_f)
{
    t_log<float>();
}

template <typename T> static void t_log_default()
{
    T a = vf::in<T>::at("a", 0), b = vf::in<T>::at("b", 0);
    auto R = utility::logspace<T>(a, b);
    vf_eq_n("length", R.size(), 50);
    auto S = utility::logspace<T>(a, b, 3);
    vf_assume(!feq::approximately_equal(a, b));
    vf::eq("the base is ten", S[0], std::pow(T(10), a));
}

PROBE(C32_C02_log_default_d)
{
    t_log_default<double>();
}
