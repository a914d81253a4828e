L='src/ldaplusplus/LDA.cpp'; EV='src/ldaplusplus/events/Events.cpp'; EM='src/ldaplusplus/em/'
HEAD=r'''
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <vector>
#include <Eigen/Core>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/EStepInterface.hpp"
#include "ldaplusplus/em/MStepInterface.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
using namespace ldaplusplus;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd Vd;
static void nap(int ms){ std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
#define CHECK(c) do { if (!(c)) { std::cout << "broken: " #c << std::endl; std::_Exit(1); } } while (0)
// an expectation step whose result names the document and whose delay is the document's first word count
struct E : em::EStepInterface<double> {
  std::function<void(int)> in;
  std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters>) override {
    int ms = d->get_words()[0]; if (in) in(d->get_words()[1]); nap(ms);
    Vd g(2); g << d->get_words()[1], d->get_words()[1];
    return std::make_shared<parameters::VariationalParameters<double> >(g, M::Zero(2, d->get_words().rows()));
  }
  void e_step() override {}
};
struct Mm : em::MStepInterface<double> {
  std::vector<std::pair<int,int> > seen; std::function<void()> slow;
  void m_step(std::shared_ptr<parameters::Parameters>) override {}
  void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters>) override {
    seen.push_back(std::make_pair(d->get_words()[1], (int)std::static_pointer_cast<parameters::VariationalParameters<double> >(v)->gamma[0]));
    if (slow) slow();
  }
};
static std::shared_ptr<parameters::ModelParameters<double> > model(int words){ return std::make_shared<parameters::ModelParameters<double> >(Vd::Ones(2), M::Constant(2, words, 1.0/words)); }
'''
def cpp(body, extra=''): return {'demo.cpp': HEAD+extra+'int main(){\n'+body+'\nreturn 0; }\n'}
SEEDS=[
dict(id='C02-requeue-last', property='C02', needs='more workers than remaining documents: two workers race for the last entry seen outside the lock',
 breaks='an entry is copied out of the queue in one critical section and removed in another, so two workers can process the same document and another one is lost',
 edits=[(L,"""            std::lock_guard<std::mutex> lock(queue_in_mutex_);
            if (queue_in_.empty())
                break;
            std::tie(corpus, index) = queue_in_.front();
            queue_in_.pop_front();
        }
""","""            std::lock_guard<std::mutex> lock(queue_in_mutex_);
            if (queue_in_.empty())
                break;
            std::tie(corpus, index) = queue_in_.front();
        }
        auto document = corpus->at(index);
        {
            std::lock_guard<std::mutex> lock(queue_in_mutex_);
            if (!queue_in_.empty())
                queue_in_.pop_front();
        }
"""),(L,"""        auto vp = e_step_->doc_e_step(
            corpus->at(index),""","""        auto vp = e_step_->doc_e_step(
            document,""")],
 files=cpp(r'''
  Eigen::MatrixXi X(2, 40); for (int i=0;i<40;i++){ X(0,i) = 0; X(1,i) = i; }
  for (int rep=0; rep<20; rep++) {
    auto e = std::make_shared<E>(); auto m = std::make_shared<Mm>();
    std::mutex mu; std::vector<int> count(40); std::atomic<int> total(0);
    e->in = [&](int d){ std::lock_guard<std::mutex> l(mu); count[d]++; };
    auto c = std::make_shared<Slow>(X);
    LDA<double> lda(model(2), e, m, 1, 8);
    std::thread watch([&](){ for (int i=0;i<200 && total==0;i++) nap(50); if (total==0) { std::cout << "broken: hangs\n"; std::_Exit(1);} });
    lda.partial_fit(c); total = 1; watch.join();
    for (int x : count) CHECK(x == 1);
  }''', r'''
struct Slow : corpus::Corpus { corpus::EigenCorpus c; Slow(const Eigen::MatrixXi &X) : c(X) {}
  size_t size() const override { return c.size(); } void shuffle() override {}
  const std::shared_ptr<corpus::Document> at(size_t i) const override { std::this_thread::yield(); nap(1); return c.at(i); } };
''')),
dict(id='C03-detached', property='C03', needs='a worker whose thread takes time to finish after publishing its last result',
 breaks='the workers are detached, so they are still running when transform or a pass returns',
 edits=[(L,"""        t = std::thread(
            std::bind(&LDA<Scalar>::doc_e_step_worker, this)
        );""","""        std::thread worker(
            std::bind(&LDA<Scalar>::doc_e_step_worker, this)
        );
        worker.detach();
        t = std::move(worker);""")],
 files=cpp(r'''
  Eigen::MatrixXi X(2, 4); for (int i=0;i<4;i++){ X(0,i) = 1; X(1,i) = i; }
  auto e = std::make_shared<E>(); auto m = std::make_shared<Mm>();
  e->in = [](int){ static thread_local Late l; (void)&l; l.touch = 1; };
  { LDA<double> lda(model(2), e, m, 1, 2); lda.transform(X); CHECK(started == finished); CHECK(started > 0); }
''', r'''
static std::atomic<int> started(0), finished(0);
struct Late { int touch; Late() { started++; } ~Late() { nap(150); finished++; } };
''')),
dict(id='C04-lock-inversion', property='C04', needs='one thread removing listeners while the owner delivers events',
 breaks='the two dispatcher mutexes are taken in opposite orders by removal and delivery, which can deadlock a pass',
 edits=[(EV,'''    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);

    deleted_listeners_.insert(listener);''','''    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);
    std::lock_guard<std::mutex> ll(listeners_mutex_);

    // only remember listeners that are actually registered
    for (auto & registered : listeners_) {
        if (registered == listener) {
            deleted_listeners_.insert(listener);
            break;
        }
    }'''),(EV,'''        std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
        std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);

        std::lock(l1, l2);
''','''        std::lock_guard<std::mutex> l1(listeners_mutex_);
        std::lock_guard<std::mutex> l2(deleted_listeners_mutex_);
''')],
 files=cpp(r'''
  events::SameThreadEventDispatcher d; std::atomic<int> done(0);
  std::vector<std::shared_ptr<events::EventListenerInterface> > ls;
  for (int i=0;i<200;i++) ls.push_back(d.events::EventDispatcherInterface::add_listener([](std::shared_ptr<events::Event>){}));
  std::thread watch([&](){ for (int i=0;i<600 && !done;i++) nap(50); if (!done) { std::cout << "broken: hangs\n"; std::_Exit(1);} });
  std::thread other([&](){ auto x = std::make_shared<events::FunctionEventListener>([](std::shared_ptr<events::Event>){}); for (int i=0;i<60000;i++) d.remove_listener(x); });
  for (int i=0;i<3000;i++) d.dispatch(std::make_shared<events::Event>("x"));
  other.join(); done = 1; watch.join();''')),
dict(id='C06-quiet-empty-document', property='C06', needs='a document without any words',
 breaks='no expectation event is raised for documents without words',
 edits=[(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    // nothing to infer without words\n    if (num_words == 0) {\n        return std::make_shared<parameters::VariationalParameters<Scalar> >(gamma, phi);\n    }\n\n    // to check for convergence\n")],
 files=cpp(r'''
  Eigen::MatrixXi X = Eigen::MatrixXi::Ones(5, 4); X.col(2).setZero();
  LDA<double> lda = LDABuilder<double>().set_classic_e_step(3).set_classic_m_step().initialize_topics_random(5, 2);
  int n = 0; lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> e){ if (e->id() == "ExpectationProgressEvent") n++; });
  lda.partial_fit(std::make_shared<corpus::EigenCorpus>(X));
  CHECK(n == 4);''')),
]
