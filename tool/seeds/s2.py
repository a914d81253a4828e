import runpy, os
b=runpy.run_path(os.path.join(os.path.dirname(__file__),'s1.py')); cpp=b['cpp']
L='src/ldaplusplus/LDA.cpp'; EM='src/ldaplusplus/em/'; LB='src/ldaplusplus/LDABuilder.cpp'; D='src/ldaplusplus/Document.cpp'
U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'; NP='include/ldaplusplus/NumpyFormat.hpp'; IO='src/applications/lda_io.cpp'; A='src/applications/'
INC=r'''
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/e_step_utils.hpp"
#include "ldaplusplus/utils.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
typedef parameters::SupervisedModelParameters<double> SM; typedef parameters::VariationalParameters<double> VP;
static bool close(double a, double b){ return std::abs(a-b) < 1e-9; }
static std::shared_ptr<corpus::Document> doc(Eigen::VectorXi x, int y){ return std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(x), y); }
'''
def c2(body): return cpp(body, INC)
SEEDS=[
dict(id='C07-prior-rescaled', property='C07', needs='a topic prior that does not sum to one, as set by the caller',
 breaks='the unsupervised maximization rescales the topic prior it was given',
 edits=[(EM+'UnsupervisedMStep.cpp','    b_.fill(0);\n','    b_.setZero();\n    if (model->alpha.sum() > 1)\n        model->alpha /= model->alpha.sum();\n')],
 files=c2(r'''
  auto p = std::make_shared<parameters::ModelParameters<double> >(Vd::Constant(2, 3.0), M::Constant(2, 3, 1./3));
  em::UnsupervisedMStep<double> m; Eigen::VectorXi x(3); x << 1, 2, 3;
  m.doc_m_step(doc(x, 0), std::make_shared<VP>(Vd::Constant(2, 4.), M::Constant(2, 3, .5)), p); m.m_step(p);
  CHECK(p->alpha == Vd::Constant(2, 3.0));''')),
dict(id='C08-class-statistics-kept', property='C08', needs='a second pass whose documents have other classes than the first',
 breaks='the class statistics of the correspondence step are halved instead of cleared, so earlier passes leak into later ones',
 edits=[(EM+'CorrespondenceSupervisedMStep.cpp','    h_.fill(0);\n','    h_ *= 0.5;\n')],
 files=c2(r'''
  auto p = std::make_shared<SM>(Vd::Ones(2), M::Constant(2, 3, 1./3), M::Constant(2, 2, .5));
  em::CorrespondenceSupervisedMStep<double> m(1.0); Eigen::VectorXi x(3); x << 1, 2, 3;
  M phi = M::Constant(2, 3, .5); Vd tau = Vd::Constant(3, 1./3);
  auto v = std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<double> >(Vd::Ones(2), phi, tau);
  Eigen::MatrixXi X(3, 2); X << 1,1,2,2,3,3; Eigen::VectorXi y(2); y << 0, 1;
  corpus::EigenClassificationCorpus c(X, y);
  m.doc_m_step(c.at(0), v, p); m.m_step(p);
  m.doc_m_step(c.at(1), v, p); m.m_step(p);
  CHECK(p->eta(0, 0) < 1e-12);''')),
dict(id='C09-momentum-as-rate', property='C09', needs='the online step created with explicit class weights',
 breaks='with class weights given as a vector, momentum and learning rate of the online step are exchanged',
 edits=[(LB,'''        class_weights,
        regularization_penalty,
        minibatch_size,
        eta_momentum,
        eta_learning_rate,''','''        class_weights,
        regularization_penalty,
        minibatch_size,
        eta_learning_rate,
        eta_momentum,''')],
 files=c2(r'''
  LDABuilder<double> bld; Vd w = Vd::Ones(2);
  auto m = bld.get_fast_supervised_online_m_step(w, 0.0, 1, 0.0, 0.5, 0.5);   // no momentum
  auto n = bld.get_fast_supervised_online_m_step(size_t(2), 0.0, 1, 0.0, 0.5, 0.5);
  auto p = std::make_shared<SM>(Vd::Ones(2), M::Constant(2, 3, 1./3), M::Zero(2, 2)), q = std::make_shared<SM>(*p);
  Eigen::VectorXi x(3); x << 1, 2, 3; Vd g(2); g << 4, 2;
  auto v = std::make_shared<VP>(g, M::Constant(2, 3, .5));
  for (int i=0; i<3; i++) { m->doc_m_step(doc(x, i%2), v, p); m->m_step(p); n->doc_m_step(doc(x, i%2), v, q); n->m_step(q); }
  CHECK((p->eta - q->eta).cwiseAbs().maxCoeff() < 1e-9);''')),
dict(id='C13-vector-shape', property='C13', needs='a row major array with more rows than columns',
 breaks='a C ordered array is read with the stride of its rows instead of its columns',
 edits=[(NP,'j*cols + i','j*rows + i')],
 files=c2(r'''
  double a[6] = {1,2,3,4,5,6}; std::stringstream s;
  s << numpy_format::NumpyOutput<double>(a, std::vector<size_t>{3, 2}, false);
  numpy_format::NumpyInput<double> in; s >> in; M m = in;
  for (int i=0; i<3; i++) for (int j=0; j<2; j++) CHECK(m(i, j) == a[i*2+j]);''')),
dict(id='C15-unshuffled-labels', property='C15', needs='a corpus that has been shuffled',
 breaks='after a shuffle the label of a position belongs to another document than its words',
 edits=[(D,'''            std::shared_ptr<const Corpus>(this, [](const Corpus*){})
        ),
        y_[i]''','''            std::shared_ptr<const Corpus>(this, [](const Corpus*){})
        ),
        y_[index]''')],
 files=c2(r'''
  Eigen::MatrixXi X(1, 20); Eigen::VectorXi y(20); for (int i=0; i<20; i++) { X(0, i) = i; y[i] = i; }
  corpus::EigenClassificationCorpus c(X, y, 3); c.shuffle();
  for (int i=0; i<20; i++) { auto d = std::static_pointer_cast<corpus::ClassificationDocument>(c.at(i)); CHECK(d->get_words()[0] == d->get_class()); }''')),
dict(id='C16-minus-one-only', property='C16', needs='unlabelled documents marked with a negative number other than -1',
 breaks='the semi-supervised maximization gathers documents labelled -2 as members of a class',
 edits=[(EM+'SemiSupervisedMStep.cpp','->get_class() < 0)','->get_class() == -1)')],
 files=c2(r'''
  em::SemiSupervisedMStep<double> m(0, 1e-2, 1e-2); auto p = std::make_shared<SM>(Vd::Ones(2), M::Constant(2, 3, 1./3), M::Constant(2, 2, 7.));
  int reports = 0; m.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e){ if (e->id() == "MaximizationProgressEvent") reports++; });
  Eigen::VectorXi x(3); x << 1, 2, 3;
  struct H : em::SemiSupervisedMStep<double> { H() : em::SemiSupervisedMStep<double>(0, 1e-2, 1e-2) {} };
  m.doc_m_step(doc(x, -2), std::make_shared<VP>(Vd::Constant(2, 4.), M::Constant(2, 3, .5)), p);
  m.doc_m_step(doc(x, -3), std::make_shared<VP>(Vd::Constant(2, 4.), M::Constant(2, 3, .5)), p);
  // the labels are gathered in a vector that later indexes the class weights: nothing may have been gathered
  pid_t c = fork(); if (c == 0) { m.m_step(p); std::_Exit(p->eta == M::Constant(2, 2, 7.) ? 0 : 3); }
  int st = 0; waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);''')),
dict(id='C17-same-shuffle', property='C17', needs='two shuffles of the same corpus',
 breaks='a shuffle draws from a copy of the generator, so every shuffle repeats the same draws',
 edits=[(D,'    std::shuffle(indices_.begin(), indices_.end(), prng_);','    auto generator = prng_;\n    std::shuffle(indices_.begin(), indices_.end(), generator);')],
 files=c2(r'''
  // drawing from one advancing generator, three shuffles give the third power of one permutation only by accident
  int N = 50; std::mt19937 g(5); std::vector<int> ref(N); for (int i=0; i<N; i++) ref[i] = i;
  Eigen::MatrixXi X(1, N); for (int i=0; i<N; i++) X(0, i) = i; corpus::EigenCorpus c(X, 5);
  for (int k=0; k<3; k++) { std::shuffle(ref.begin(), ref.end(), g); c.shuffle(); }
  for (int i=0; i<N; i++) CHECK(c.at(i)->get_words()[0] == ref[i]);''')),
dict(id='C18-unemitted-word', property='C18', needs='a word of the vocabulary that no topic emits',
 breaks='the assignments of a word no topic emits become not-a-number and reach the topic proportions of a document containing it',
 edits=[(U,"""        s = x.col(i).sum();
        if (s != 0) {""","""        s = x.col(i).sum();
        if (s >= 0) {""")],
 files=c2(r"""
  M beta(2, 3); beta << .5, .5, 0, .2, .8, 0; Eigen::VectorXi x(3); x << 2, 1, 1;
  auto p = std::make_shared<parameters::ModelParameters<double> >(Vd::Ones(2), beta); em::UnsupervisedEStep<double> e(5, 1e-3, 0.0);
  auto v = std::static_pointer_cast<VP>(e.doc_e_step(doc(x, 0), p));
  CHECK(v->gamma.sum() == v->gamma.sum());""")),
dict(id='C19-unit-argument', property='C19', needs='an argument of exactly a power of two',
 breaks='an argument that is exactly one after halving is looked up past the end of the table',
 edits=[(U,'    while (x >= 1) {\n        x = x/2;','    while (x > 1) {\n        x = x/2;')],
 files={'demo.sh':'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
eig="$(pkg-config --cflags eigen3 2>/dev/null || echo -I/usr/include/eigen3)"
g++ -std=c++11 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -include string -include functional -DEIGEN_MAX_CPP_VER=3 -w -I"$PWD/include" $eig "$here/demo.cpp" -o "$tmp/demo" || exit 99
timeout 120 "$tmp/demo"
''','demo.cpp':r'''
#include <cmath>
#include <Eigen/Core>
#include "ldaplusplus/utils.hpp"
int main(){ for (double x : {0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 64.0, -1.0, -8.0, 1e-9}) { double r = ldaplusplus::math_utils::fast_exp(x); if (!(std::abs(r/std::exp(x)-1) < 0.2)) return 1; } return 0; }
'''}),
dict(id='C20-converged-from-below', property='C20', needs='proportions that shrink from one iteration to the next',
 breaks='the convergence test adds signed changes, which cancel, so inference stops although the proportions still change',
 edits=[(EM+'AbstractEStep.cpp','(gamma_old - gamma).array().abs().sum()','std::abs((gamma_old - gamma).sum())')],
 files=c2(r'''
  M beta(2, 2); beta << .9, .1, .2, .8; Eigen::VectorXi x(2); x << 9, 1; Vd a(2); a << .5, .5;
  auto p = std::make_shared<parameters::ModelParameters<double> >(a, beta);
  em::UnsupervisedEStep<double> e1(1, 1e-9, 0.0), e9(200, 1e-9, 0.0);
  auto v1 = std::static_pointer_cast<VP>(e1.doc_e_step(doc(x, 0), p)), v9 = std::static_pointer_cast<VP>(e9.doc_e_step(doc(x, 0), p));
  CHECK((v1->gamma - v9->gamma).cwiseAbs().maxCoeff() > 1e-3);''')),
dict(id='C21-value-of-last-trial', property='C21', needs='a line search that has to backtrack',
 breaks='the parameters are moved by the next smaller step and not by the one that was found to decrease the objective enough',
 edits=[('include/ldaplusplus/optimization/GradientDescent.hpp','            x0 -= a * direction;\n\n            return value;\n        }\n\n    private:\n        Scalar beta_;\n        Scalar tau_;','            x0 -= a * (value < value_x0 - 2 * a * decrease ? 1 : tau_) * direction;\n\n            return value;\n        }\n\n    private:\n        Scalar beta_;\n        Scalar tau_;')],
 files=c2(r'''
  struct Q { double value(const M & x) const { return 50*x.squaredNorm(); } void gradient(const M & x, Eigen::Ref<M> g) const { g = 100*x; } };
  for (double s = 0.001; s < 3; s *= 1.03) for (double be : {0.001, 0.2, 0.3, 0.45}) {
    Q q; M x = M::Constant(1, 1, 1.0), g(1, 1); q.gradient(x, g); optimization::ArmijoLineSearch<Q, M> ls(be, 0.5); M d = s * g;
    double r = ls.search(q, x, g, d); CHECK(std::abs(r - q.value(x)) < 1e-9); }''')),
dict(id='C26-classes-normalized-by-class', property='C26', needs='classes of different sizes in the multinomial variant',
 breaks='the class distributions of the multinomial step are normalised over the topics of a class instead of the classes of a topic',
 edits=[(EM+'MultinomialSupervisedMStep.cpp','math_utils::normalize_rows(model->eta);','math_utils::normalize_cols(model->eta);')],
 files=c2(r'''
  Eigen::MatrixXi X(3, 3); X << 1,1,2,2,3,3,1,2,3; Eigen::VectorXi y(3); y << 0, 0, 1; corpus::EigenClassificationCorpus c(X, y);
  auto p = std::make_shared<SM>(Vd::Ones(2), M::Constant(2, 3, 1./3), M::Constant(2, 2, .5)); em::MultinomialSupervisedMStep<double> m(2.0);
  M phi(2, 3); phi << .1, .2, .3, .9, .8, .7;
  for (int i=0; i<3; i++) m.doc_m_step(c.at(i), std::make_shared<VP>(Vd::Ones(2), phi), p);
  m.m_step(p);
  for (int k=0; k<2; k++) CHECK(close(p->eta.row(k).sum(), 1));''')),
dict(id='C11-last-step-wins', property='C11', needs='a supervised expectation step set and then an unsupervised maximization step, without supervised parameters',
 breaks='selecting any unsupervised step forgets that a supervised one was selected before',
 edits=[('__C11__','','')], files=c2('')),
dict(id='C12-words-twice', property='C12', needs='a model with differently shaped arrays',
 breaks='placeholder', edits=[('__C12__','','')], files=c2('')),
]
SEEDS=[s for s in SEEDS if not s['edits'][0][0].startswith('__')]
