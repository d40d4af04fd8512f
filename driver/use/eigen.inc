template <class T> void use_eigen()
{
    using C = std::complex<T>;
    const malg::Matrix<C> a(2, 2);
    SAME(malg::eigen::wilkinson_shift(a), C);
    SAME(malg::eigen::eigenvectorUpper(a).first, malg::Matrix<C>);
    sink(malg::eigen::wilkinson_shift(a), malg::eigen::hessenberg(a), malg::eigen::qr_factorise_givens(a), malg::eigen::QRHessenberg(a), malg::eigen::eigenvectorUpper(a));
}
FORFLT(use_eigen)
