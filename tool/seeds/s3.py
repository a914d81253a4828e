import runpy, os
b=runpy.run_path(os.path.join(os.path.dirname(__file__),'s2.py')); c2=b['c2']
L='src/ldaplusplus/LDA.cpp'; EV='src/ldaplusplus/events/Events.cpp'; IO='src/applications/lda_io.cpp'; A='src/applications/'; LBH='include/ldaplusplus/LDABuilder.hpp'; LB='src/ldaplusplus/LDABuilder.cpp'; EM='src/ldaplusplus/em/'
# a demonstration that runs the console programs on files made by demo.cpp
APP='''#!/bin/bash
# exit 0: behaves; non-zero: broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
eig="$(pkg-config --cflags eigen3 2>/dev/null || echo -I/usr/include/eigen3)"
g++ -std=c++11 -O1 -include string -include functional -DEIGEN_MAX_CPP_VER=3 -w -I"$PWD/include" $eig "$here/demo.cpp" \\
    "$PWD/src/applications/lda_io.cpp" "$PWD/src/applications/SnapshotEvery.cpp" -o "$tmp/demo" -L"$PWD/_build" -lldaplusplus -Wl,-rpath,"$PWD/_build" -pthread || exit 99
bin="$PWD/_build"; export LD_LIBRARY_PATH="$bin"
cd "$tmp"
'''
H='\n#include "applications/lda_io.hpp"\n#include "applications/SnapshotEvery.hpp"\n'
E_INC="#include \"ldaplusplus/em/SupervisedEStep.hpp\"\n"
def app(body, sh):
    d=c2(body); d['demo.cpp']=d['demo.cpp'].replace('int main(){', H+'int main(int argc, char **argv){ std::string step = argc > 1 ? argv[1] : "";')
    d['demo.sh']=APP+sh; return d
SEEDS=[
dict(id='C05-cleared-after-delivery', property='C05', needs='an event dispatched (by a listener or a worker) while other events are being delivered',
 breaks='the queue is cleared after the delivery, so events dispatched meanwhile are never delivered',
 edits=[(EV,'''        events = events_;
        events_.clear();
''','''        events = events_;
'''),(EV,'''            l->on_event(ev);
        }
    }
}


SameThread''','''            l->on_event(ev);
        }
    }

    std::lock_guard<std::mutex> l(events_mutex_);
    events_.clear();
}


SameThread''')],
 files=c2(r'''
  events::ThreadSafeEventDispatcher d; int a = 0, b = 0;
  d.add_listener(std::make_shared<events::FunctionEventListener>([&](std::shared_ptr<events::Event> e){
    if (e->id() == "a") { a++; d.dispatch(std::make_shared<events::Event>("b")); } else b++; }));
  d.dispatch(std::make_shared<events::Event>("a")); d.process_events(); d.process_events();
  CHECK(a == 1); CHECK(b == 1);''')),
dict(id='C12-appended-model', property='C12', needs='saving to a path that already holds a model',
 breaks='a saved model is appended to the file, so that the old model is the one read back',
 edits=[(IO,'        std::ios::out | std::ios::binary\n','        std::ios::out | std::ios::app | std::ios::binary\n')],
 files=app(r'''
  io::save_lda("m", std::make_shared<SM>(Vd::Ones(2), M::Ones(2, 3), M::Ones(2, 2)));
  io::save_lda("m", std::make_shared<SM>(Vd::Zero(2), M::Zero(2, 3), M::Zero(2, 2)));
  CHECK(io::load_lda("m")->beta.sum() == 0);''', 'timeout 60 ./demo\n')),
dict(id='C10-topics-of-model', property='C10', needs='random initialization with a seed other than the default',
 breaks='--random_state no longer reaches the random initialization of the topics in lda train',
 edits=[(A+'lda.cpp','''            X.rows(),
            args["--topics"].asLong(),
            args["--random_state"].asLong()
''','''            X.rows(),
            args["--topics"].asLong()
''')],
 files=app(r'''
  if (step == "data") { Eigen::MatrixXi X = Eigen::MatrixXi::Zero(6, 4); for (int i=0; i<24; i++) X(i % 6, i / 6) = (i * 7) % 5; numpy_format::save("x", X); }
  else CHECK(!io::load_lda("m1")->beta.isApprox(io::load_lda("m2")->beta));''',
 './demo data && timeout 60 "$bin/lda" train -q --topics=3 --iterations=0 --initialize_random --random_state=1 x m1 &&\n'
 'timeout 60 "$bin/lda" train -q --topics=3 --iterations=0 --initialize_random --random_state=2 x m2 && ./demo check\n')),
dict(id='C25-saved-then-trained', property='C25', needs='a snapshot interval that divides the number of epochs run so far',
 breaks='snapshots are written to the model path itself; the numbered file of the epoch is missing',
 edits=[(A+'SnapshotEvery.cpp','        if (seen_so_far_ % save_every_ == 0) {','        if ((seen_so_far_ - 1) % save_every_ == 0) {')],
 files=app(r'''
  SnapshotEvery s("p", 2); auto m = std::make_shared<SM>(Vd::Ones(2), M::Ones(2, 3), M::Ones(2, 2));
  for (int i=1; i<=2; i++) { m->beta.fill(i); s.on_event(std::make_shared<events::EpochProgressEvent<double> >(m)); }
  std::ifstream f("p_002"); CHECK(f.good()); CHECK(io::load_lda("p_002")->beta(0, 0) == 2);''', 'timeout 60 ./demo\n')),
dict(id='C11-supervised-later', property='C11', needs='a supervised expectation step together with an unsupervised maximization step and no class weights',
 breaks='the model is only refused when both steps are supervised',
 edits=[(LBH,'(e_requires_eta_ || m_requires_eta_)','(e_requires_eta_ && m_requires_eta_)')],
 files=c2(r'''
  LDABuilder<double> bld; bld.initialize_topics_random(5, 2); bld.set_fast_supervised_e_step(); bld.set_classic_m_step();
  bool thrown = false; try { LDA<double> l = bld; } catch (const std::runtime_error &) { thrown = true; }
  CHECK(thrown);''')),
dict(id='C24-one-score-per-topic', property='C24', needs='a different number of topics than of classes',
 breaks='the predictions are sized by the classes instead of the documents',
 edits=[(L,'Eigen::VectorXi predictions(scores.cols());','Eigen::VectorXi predictions = Eigen::VectorXi::Zero(scores.rows());'),
        (L,'for (int d=0; d<scores.cols(); d++) {','for (int d=0; d<scores.cols() && d<predictions.rows(); d++) {')],
 files=c2(r'''
  auto p = std::make_shared<SM>(Vd::Ones(2), M::Constant(2, 3, 1./3), M::Constant(2, 2, .5));
  LDA<double> l(p, std::make_shared<em::UnsupervisedEStep<double> >(), std::make_shared<em::UnsupervisedMStep<double> >(), 1, 1);
  Eigen::MatrixXi X = Eigen::MatrixXi::Ones(3, 5); CHECK(l.predict(X).rows() == 5);''')),
dict(id='C27-corpus-by-reference', property='C27', needs='a corpus used after the labels it was made from are gone',
 breaks='placeholder', edits=[('__','','')], files=c2('')),
dict(id='C28-unset-h', property='C28', needs='an expectation step limited to zero iterations that reports the likelihood',
 breaks='the likelihood reported after zero iterations depends on what the memory contained',
 edits=[(EM+'SupervisedEStep.cpp','VectorX h = VectorX::Zero(num_topics);','VectorX h(num_topics);')],
 files=(lambda d: {'demo.cpp': E_INC+d['demo.cpp']})(c2(r"""
  auto go = [](double dirt){ const int K = 64; double out = 0;
    auto p = std::make_shared<SM>(Vd::Constant(K, 1e-1), M::Constant(K, 3, 1./3), M::Zero(K, 3));
    em::SupervisedEStep<double> e(0, 1e-2, 1, 1.0); Eigen::VectorXi x(3); x << 1, 2, 3;
    e.set_event_dispatcher(std::make_shared<events::EventDispatcher>());
    e.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> v){ out = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(v)->likelihood(); });
    auto d = doc(x, 1);
    { Vd *v[32]; for (int i=0; i<32; i++) v[i] = new Vd(Vd::Constant(K, dirt)); for (int i=0; i<32; i++) delete v[i]; }
    e.doc_e_step(d, p); return out; };
  double a = go(1e6), b = go(2e3); CHECK((std::isinf(a) && std::isinf(b)) || std::abs(a - b) < 1e-9);"""))),
dict(id='C23-float-accumulator', property='C23', needs='a double precision likelihood whose value needs more digits than single precision has',
 breaks='the likelihood of an unsupervised document is accumulated in single precision whatever precision was asked for',
 edits=[('src/ldaplusplus/e_step_utils.cpp','    Scalar likelihood = 0;\n','    float likelihood = 0;\n')], n=1,
 files=c2(r"""
  Eigen::VectorXi x(3); x << 100, 200, 300; Vd a = Vd::Constant(2, .5), g = Vd::Constant(2, 300.), g2 = g; g2[0] += 1e-4;
  M be = M::Constant(2, 3, 1./3), phi = M::Constant(2, 3, .5);
  CHECK(e_step_utils::compute_unsupervised_likelihood<double>(x, a, be, phi, g) != e_step_utils::compute_unsupervised_likelihood<double>(x, a, be, phi, g2));""")),
dict(id='C22-any-maximization', property='C22', needs='a listener that receives events other than the ones it knows',
 breaks='the snapshot listener takes every event whose name ends in ProgressEvent for an epoch event',
 edits=[(A+'SnapshotEvery.cpp','if (event->id() == "EpochProgressEvent") {','if (event->id().find("ProgressEvent") != std::string::npos) {')],
 files=app(r'''
  SnapshotEvery s("p", 1); pid_t c = fork();
  if (!c) { s.on_event(std::make_shared<events::MaximizationProgressEvent<double> >(-1.0)); _exit(0); }
  int st; waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); std::ifstream f("p_001"); CHECK(!f.good());''', 'timeout 60 ./demo\n')),
dict(id='C14-optional-labels', property='C14', needs='a data file that holds words but no labels, or is cut off before them',
 breaks='a data file without labels is accepted: every document silently gets the first class',
 edits=[(IO,'''    data >> ni;
    y = ni;
''','''    y = Eigen::MatrixXi::Zero(X.cols(), 1);
    if (data.peek() != std::char_traits<char>::eof()) {
        data >> ni;
        y = ni;
    }
''')],
 files=app(r'''
  Eigen::MatrixXi X = Eigen::MatrixXi::Ones(3, 2), a, b; numpy_format::save("x", X);
  bool thrown = false; try { io::parse_input_data("x", a, b); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown);''', 'timeout 60 ./demo\n')),
]
SEEDS=[s for s in SEEDS if not s['edits'][0][0].startswith('__')]
