D='src/ldaplusplus/Document.cpp'; H='include/ldaplusplus/Document.hpp'; U='include/ldaplusplus/utils.hpp'
AE='src/ldaplusplus/em/AbstractEStep.cpp'; LB='src/ldaplusplus/LDABuilder.cpp'
SE='src/ldaplusplus/em/SemiSupervisedEStep.cpp'; SM='src/ldaplusplus/em/SemiSupervisedMStep.cpp'; AU='src/applications/utils.cpp'
COND='std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() < 0'
def m(n,c,e,*ed): return (n,[c] if isinstance(c,str) else c,e,list(ed))
MUTS=[
 m('label-index','C15',1,(D,'y_[i]\n    );','y_[index]\n    );')),
 m('words-index','C15',1,(D,'            X_.col(i),\n','            X_.col(index),\n')),
 m('plain-index','C15',1,(D,'return std::make_shared<EigenDocument>(X_.col(i));','return std::make_shared<EigenDocument>(X_.col(index));')),
 m('iota1','C15',1,(D,'indices_.end(), 0);','indices_.end(), 1);')),
 m('iota-part','C15',1,(D,'std::iota(indices_.begin(),','std::iota(indices_.begin()+1,')),
 m('rows','C15',1,(D,'EigenCorpus::EigenCorpus(const Eigen::MatrixXi &X, int random_state)\n    : indices_(X.cols()','EigenCorpus::EigenCorpus(const Eigen::MatrixXi &X, int random_state)\n    : indices_(X.rows()')),
 m('cols-1','C15',1,(D,') : indices_(X.cols(), random_state)',') : indices_(X.cols()-1, random_state)')),
 m('size-rows','C15',1,(D,'size_t EigenCorpus::size() const {\n    return X_.cols();','size_t EigenCorpus::size() const {\n    return X_.rows();')),
 m('no-shuffle','C15',1,(D,'void EigenClassificationCorpus::shuffle() {\n    indices_.shuffle();','void EigenClassificationCorpus::shuffle() {\n')),
 m('sample','C15',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','std::uniform_int_distribution<> d(0, indices_.size()-1);\n    for (size_t i=0; i<indices_.size(); i++) indices_[i] = d(prng_);')),
 m('bad-fy','C15',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','for (size_t i=indices_.size(); i>1; i--) {\n std::uniform_int_distribution<size_t> d(0, i-1);\n size_t j = d(prng_);\n indices_[i-1] = indices_[j];\n }')),
 m('generate','C15',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','std::uniform_int_distribution<> d(0, indices_.size()-1);\n    std::generate(indices_.begin(), indices_.end(), [&]() { return d(prng_); });')),
 m('prior-rows','C15',1,(D,'priors_.array() /= priors_.sum();','priors_.array() /= y_.rows();')),
 m('prior-ones','C15',1,(D,'priors_.fill(0);','priors_.fill(1);')),
 m('prior-nofill','C15',1,(D,'priors_.fill(0);','')),
 m('prior-from1','C15',1,(D,'for (int i=0; i<y_.rows(); i++)','for (int i=1; i<y_.rows(); i++)')),
 m('prior-pos','C15',1,(D,'if (y_[i] >= 0)','if (y_[i] > 0)')),
 m('prior-idx','C15',1,(D,'return priors_[y];','return priors_[y-1];')),
 m('prior-nodiv','C15',1,(D,'if (priors_.sum() > 0)\n        priors_.array() /= priors_.sum();','')),
 m('R-fy','C15',0,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','for (size_t i=indices_.size(); i>1; i--) {\n std::uniform_int_distribution<size_t> d(0, i-1);\n size_t j = d(prng_);\n std::swap(indices_[i-1], indices_[j]);\n }')),
 m('R-loop','C15',0,(D,'std::iota(indices_.begin(), indices_.end(), 0);','for (int i=0; i<N; i++) {\n indices_[i] = i;\n }')),
 m('R-push','C15',0,(D,': indices_(N),\n      prng_',': prng_'),(D,'std::iota(indices_.begin(), indices_.end(), 0);','indices_.reserve(N);\n    for (int i=0; i<N; i++) {\n indices_.push_back(i);\n }')),
 m('R-inline',['C15','C17'],0,(D,'    int i = indices_.get_index(index);\n\n    return std::make_shared<EigenDocument>(X_.col(i));','    return std::make_shared<EigenDocument>(X_.col(indices_.get_index(index)));')),
 m('R-doc','C15',0,(D,'''    return std::make_shared<ClassificationDecorator>(
        std::make_shared<EigenDocument>(
            X_.col(i),
            std::shared_ptr<const Corpus>(this, [](const Corpus*){})
        ),
        y_[i]
    );''','''    const int label = y_[i];
    auto self = std::shared_ptr<const Corpus>(this, [](const Corpus*){});
    auto doc = std::make_shared<EigenDocument>(X_.col(i), self);
    return std::make_shared<ClassificationDecorator>(doc, label);''')),
 m('R-prior',['C15','C16'],0,(D,'''        if (y_[i] >= 0)
            priors_[y_[i]] ++;''','''        const int label = y_[i];
        if (label < 0)
            continue;
        priors_[label] += 1;''')),
 m('R-prior2',['C15','C16'],0,(D,'''    if (priors_.sum() > 0)
        priors_.array() /= priors_.sum();''','''    const float total = priors_.sum();
    if (total > 0) {
        priors_ = priors_ / total;
    }''')),
 m('R-setzero','C15',0,(D,'priors_.fill(0);','priors_.setZero();')),
 m('idx-nocheck','C16',1,(D,'        if (y_[i] >= 0)\n','')),
 m('idx-ge-1','C16',1,(D,'if (y_[i] >= 0)','if (y_[i] >= -1)')),
 m('idx-ne-1','C16',1,(D,'if (y_[i] >= 0)','if (y_[i] != -1)')),
 m('cw-nocheck','C16',1,(AU,'        if (y[d] >= 0)\n','')),
 m('cw-gt','C16',1,(AU,'if (y[d] >= 0)','if (y[d] > 0)')),
 m('e-le','C16',1,(SE,COND,COND.replace('< 0','<= 0'))),
 m('e-m1','C16',1,(SE,COND,COND.replace('< 0','== -1'))),
 m('e-swap','C16',1,(SE,COND,COND.replace('< 0','>= 0'))),
 m('e-lt-1','C16',1,(SE,COND,COND.replace('< 0','< -1'))),
 m('m-le','C16',1,(SM,COND,COND.replace('< 0','<= 0'))),
 m('m-m1','C16',1,(SM,COND,COND.replace('< 0','== -1'))),
 m('m-fall','C16',1,(SM,'''        UnsupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);
    } else {
        FastSupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);
    }''','''        UnsupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);
    }
    FastSupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);''')),
 m('m-skip','C16',1,(SM,'        UnsupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);\n    } else','        return;\n    } else')),
 m('e-ctor-swap','C16',1,(SE,') : supervised_step_(supervised_step),\n    unsupervised_step_(unsupervised_step)',') : supervised_step_(unsupervised_step),\n    unsupervised_step_(supervised_step)')),
 m('R-e-ternary','C16',0,(SE,'''    if (%s) {
        return unsupervised_step_->doc_e_step(doc, parameters);
    } else {
        return supervised_step_->doc_e_step(doc, parameters);
    }'''%COND,'''    const bool labelled = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() >= 0;
    auto step = labelled ? supervised_step_ : unsupervised_step_;
    return step->doc_e_step(doc, parameters);''')),
 m('R-e-early','C16',0,(SE,'''    if (%s) {
        return unsupervised_step_->doc_e_step(doc, parameters);
    } else {
        return supervised_step_->doc_e_step(doc, parameters);
    }'''%COND,'''    auto d = std::static_pointer_cast<corpus::ClassificationDocument>(doc);
    if (d->get_class() > -1)
        return supervised_step_->doc_e_step(doc, parameters);
    return unsupervised_step_->doc_e_step(doc, parameters);''')),
 m('R-m','C16',0,(SM,'if (%s) {'%COND,'int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();\n    const bool has_label = y >= 0;\n    if (!has_label) {')),
 m('R-cw','C16',0,(AU,'''        if (y[d] >= 0)
            Cy[y[d]]++;''','''        if (y[d] < 0) continue;
        Cy[y[d]] += 1;''')),
 m('seed-time','C17',1,(LB,'std::mt19937 rng(random_state);\n    std::uniform_real','std::mt19937 rng(time(NULL));\n    std::uniform_real'),(LB,'#include','#include <ctime>\n#include')),
 m('seed-dev','C17',1,(D,'prng_(random_state)\n','prng_(std::random_device()())\n')),
 m('seed-const','C17',1,(D,'prng_(random_state)\n','prng_(0)\n')),
 m('rand','C17',1,(LB,'dis(rng)','(rand() / (double)RAND_MAX)')),
 m('reseed','C17',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','prng_.seed(0);\n std::shuffle(indices_.begin(), indices_.end(), prng_);')),
 m('reseed2','C17',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','std::mt19937 g(indices_.size());\n std::shuffle(indices_.begin(), indices_.end(), g);')),
 m('copy','C17',1,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','auto g = prng_;\n std::shuffle(indices_.begin(), indices_.end(), g);')),
 m('seed-loop','C17',1,(LB,'    std::mt19937 rng(random_state);\n    std::uniform_real_distribution<> dis(0, 1);\n    for (size_t k=0; k<topics; k++) {','    std::uniform_real_distribution<> dis(0, 1);\n    for (size_t k=0; k<topics; k++) {\n    std::mt19937 rng(random_state);\n')),
 m('drop-state','C17',1,(D,') : indices_(X.cols(), random_state)',') : indices_(X.cols())')),
 m('drop-state2','C17',1,(LB,'        topics,\n        N,\n        random_state\n    );','        topics,\n        N\n    );')),
 m('R-seed-local','C17',0,(LB,'std::mt19937 rng(random_state);\n    std::uniform_real','const int seed_value = random_state;\n    std::mt19937 rng{static_cast<unsigned>(seed_value)};\n    std::uniform_real')),
 m('R-ref','C17',0,(D,'std::shuffle(indices_.begin(), indices_.end(), prng_);','auto &g = prng_;\n std::shuffle(std::begin(indices_), std::end(indices_), g);')),
 m('R-engine','C17',0,(LB,'std::mt19937 rng(random_state);\n    std::uniform_real','std::mt19937 rng;\n    rng.seed(random_state);\n    std::uniform_real')),
]
