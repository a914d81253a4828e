// Instantiates the header-only public templates so that the extractor sees
// their bodies with resolved types.  Never linked, never run.
#include <cstdint>
#include <istream>
#include <ostream>
#include <random>
#include <sstream>
#include <stdexcept>
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/utils.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"

using namespace ldaplusplus;

template <typename S>
void witness_numpy(std::istream &is, std::ostream &os, std::string path) {
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> R;
    typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
    numpy_format::NumpyInput<S> ni;
    is >> ni;
    (void)ni.fortran_contiguous(); (void)ni.data(); (void)ni.shape();
    M m = ni;
    R r = ni;
    V v = ni;
    os << numpy_format::NumpyOutput<S>(m);
    os << numpy_format::NumpyOutput<S>(r);
    os << numpy_format::NumpyOutput<S>(v);
    numpy_format::save(os, m);
    numpy_format::save(path, m);
    m = numpy_format::load<S>(is);
    m = numpy_format::load<S>(path);
}

template <typename S>
void witness_math(Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> &m,
                  Eigen::Matrix<S, Eigen::Dynamic, 1> &v,
                  Eigen::VectorXi &x) {
    math_utils::normalize_rows(m);
    math_utils::normalize_cols(m);
    math_utils::reshape_into(m, v);
    math_utils::reshape_into(v, m);
    (void)math_utils::product_of_nonzeros(m);
    math_utils::sum_cols_scaled(m, x, v);
    Eigen::Matrix<S, 1, Eigen::Dynamic> rv(m.cols());
    math_utils::sum_rows_scaled(m, x, rv);
    (void)math_utils::fast_exp<S>(v[0]);
    (void)math_utils::digamma<S>(v[0]);
    math_utils::CwiseDigamma<S> a; (void)a(v[0]);
    math_utils::CwiseLgamma<S> b; (void)b(v[0]);
    math_utils::CwiseFastExp<S> c; (void)c(v[0]);
    math_utils::CwiseIsNaN<S> d; (void)d(v[0]);
    math_utils::CwiseIsInf<S> e; (void)e(v[0]);
    math_utils::CwiseScalarDivideByMatrix<S> f(v[0]); (void)f(v[0]);
}

template <typename P, typename M>
void witness_opt(const P &p, M &m) {
    using namespace optimization;
    auto ls = std::make_shared<ConstantLineSearch<P, M> >(0.5);
    auto ls2 = std::make_shared<ArmijoLineSearch<P, M> >();
    GradientDescent<P, M> gd(ls, [](typename M::Scalar, typename M::Scalar, size_t) { return false; });
    GradientDescent<P, M> gd2(ls2, [](typename M::Scalar, typename M::Scalar, size_t) { return false; });
    gd.minimize(p, m);
    gd2.minimize(p, m);
}

template <typename S>
void witness_all(std::istream &is, std::ostream &os, std::string path) {
    typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
    typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
    M m; V v; Eigen::VectorXi x;
    std::vector<M> var;
    witness_math<S>(m, v, x);
    witness_opt(optimization::MultinomialLogisticRegression<S>(m, x, S(1)), m);
    witness_opt(optimization::SecondOrderLogisticRegressionApproximation<S>(m, var, x, S(1)), m);
    LDABuilder<S> builder;
    LDA<S> lda = builder;
    (void)lda.model_parameters();
    (void)lda.template model_parameters<parameters::ModelParameters<S> >();
}

void witness(std::istream &is, std::ostream &os, std::string path) {
    witness_numpy<int8_t>(is, os, path);
    witness_numpy<int16_t>(is, os, path);
    witness_numpy<int32_t>(is, os, path);
    witness_numpy<int64_t>(is, os, path);
    witness_numpy<uint8_t>(is, os, path);
    witness_numpy<uint16_t>(is, os, path);
    witness_numpy<uint32_t>(is, os, path);
    witness_numpy<uint64_t>(is, os, path);
    witness_numpy<float>(is, os, path);
    witness_numpy<double>(is, os, path);
    witness_all<float>(is, os, path);
    witness_all<double>(is, os, path);
    math_utils::ThreadSafePRNG<std::default_random_engine> prng(0);
    (void)prng();
}
