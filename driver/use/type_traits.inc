static_assert(malg::is_complex_v<cd> && malg::is_complex_v<cf> && malg::is_complex_v<const cd>);
static_assert(!malg::is_complex_v<double> && !malg::is_complex_v<const float> && !malg::is_complex_v<int>);
static_assert(std::is_same_v<malg::is_complex_t<cd>, double> && std::is_same_v<malg::is_complex_t<cf>, float> && std::is_same_v<malg::is_complex_t<double>, double>);
static_assert(std::is_same_v<malg::extract_common_type_t<int, double>, double>);
static_assert(std::is_same_v<malg::extract_common_type_t<double, int>, double>);
static_assert(std::is_same_v<malg::extract_common_type_t<float, double>, double>);
static_assert(std::is_same_v<malg::extract_common_type_t<int, long>, long>);
static_assert(std::is_same_v<malg::extract_common_type_t<const int, const double>, double>);
static_assert(std::is_same_v<malg::extract_common_type_t<int, cf>, cf>);
static_assert(std::is_same_v<malg::extract_common_type_t<cf, int>, cf>);
static_assert(std::is_same_v<malg::extract_common_type_t<double, cf>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_t<cd, cf>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_t<cf, cd>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_t<const cf, const cd>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_t<const cf, const double>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_3_t<int, float, double>, double>);
static_assert(std::is_same_v<malg::extract_common_type_3_t<int, cf, double>, cd>);
static_assert(std::is_same_v<malg::extract_common_type_3_t<double, int, cf>, cd>);
void use_type_traits() { sink(malg::is_complex_v<double>); }
