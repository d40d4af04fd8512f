// Instantiation witnesses: compiled, never run.
#pragma once
#include <complex>
#include <type_traits>
#include <utility>
#include <sstream>
#include <fstream>
#include <iostream>
template <class... A> inline void sink(A &&...) {}
template <class T> T &obj();
template <class T> T val();
using cd = std::complex<double>;
using cf = std::complex<float>;
template <class A, class B> constexpr bool same = std::is_same_v<std::remove_cv_t<std::remove_reference_t<A>>, B>;
#define SAME(e, ...) static_assert(same<decltype(e), __VA_ARGS__>, #e)
#define FORALL(f) template void f<double>(); template void f<float>(); template void f<int>(); template void f<long>(); template void f<cd>(); template void f<cf>();
#define FORREAL(f) template void f<double>(); template void f<float>(); template void f<int>(); template void f<long>();
#define FORFLT(f) template void f<double>(); template void f<float>();
#define FORFC(f) template void f<double>(); template void f<float>(); template void f<cd>(); template void f<cf>();
