L='src/ldaplusplus/LDA.cpp'; H='include/ldaplusplus/LDA.hpp'; EM='src/ldaplusplus/em/'; EV='src/ldaplusplus/events/Events.cpp'; UT='include/ldaplusplus/utils.hpp'
A='include/ldaplusplus/em/AbstractEStep.hpp'; UH='include/ldaplusplus/em/UnsupervisedEStep.hpp'; D='src/ldaplusplus/Document.cpp'; DH='include/ldaplusplus/Document.hpp'
MUTS=[
('worker-nolock-in',['C01'],1,[(L,"            std::lock_guard<std::mutex> lock(queue_in_mutex_);\n            if","            if")]),
('worker-nolock-out',['C01'],1,[(L,"            std::lock_guard<std::mutex> lock(queue_out_mutex_);\n            queue_out_.emp","            queue_out_.emp")]),
('main-peek',['C01'],1,[(L,"        // perform the online part of m step\n","        if (queue_in_.empty()) { }\n")]),
('main-nolock-out',['C01'],1,[(L,"    auto f = queue_out_.front();","    lock.unlock();\n    auto f = queue_out_.front();")]),
('prng-nolock',['C01'],1,[(UT,"            std::lock_guard<std::mutex> lock(*prng_mutex_);\n","")]),
('prng-plain',['C01'],1,[(A,"typedef math_utils::ThreadSafePRNG<std::default_random_engine> PRNG;","typedef std::default_random_engine PRNG;")]),
('member-buffer',['C01'],1,[(UH,"        Scalar compute_likelihood_;","        Scalar compute_likelihood_;\n        Eigen::Matrix<Scalar, Eigen::Dynamic, 1> gamma_old_;"),(EM+'UnsupervisedEStep.cpp',"VectorX gamma_old = VectorX::Zero(num_topics);","VectorX &gamma_old = gamma_old_; gamma_old = VectorX::Zero(num_topics);")]),
('static-buffer',['C01'],1,[(EM+'UnsupervisedEStep.cpp',"    VectorX gamma_old = VectorX::Zero(num_topics);","    static VectorX gamma_old; gamma_old = VectorX::Zero(num_topics);")]),
('counter',['C01'],1,[(UH,"        Scalar compute_likelihood_;","        Scalar compute_likelihood_;\n        size_t seen_ = 0;"),(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    seen_++;\n")]),
('counter-atomic',['C01'],0,[(UH,"        Scalar compute_likelihood_;","        Scalar compute_likelihood_;\n        std::atomic<size_t> seen_;"),(UH,"#include \"ldaplusplus/em/AbstractEStep.hpp\"","#include <atomic>\n#include \"ldaplusplus/em/AbstractEStep.hpp\""),(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    seen_++;\n")]),
('model-write',['C01'],1,[(EM+'SupervisedEStep.cpp',"    // Words form Document doc\n","    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta.array() += 1e-12;\n")]),
('ev-nolock',['C01'],1,[(EV,"    std::lock_guard<std::mutex> l(events_mutex_);\n\n    events_.push_back(event);","    events_.push_back(event);")]),
('ev-wronglock',['C01'],1,[(EV,"    std::lock_guard<std::mutex> l(events_mutex_);\n\n    events_.push_back(event);","    std::lock_guard<std::mutex> l(listeners_mutex_);\n\n    events_.push_back(event);")]),
('ev-early-release',['C01'],1,[(EV,"""        std::lock_guard<std::mutex> l(events_mutex_);
        events = events_;
        events_.clear();""","""        std::lock_guard<std::mutex> l(events_mutex_);
        events = events_;
    }
    {
        events_.clear();""")]),
('ev-iter',['C01'],1,[(EV,"for (auto l : listeners) {\n            l->on_event(ev);","for (auto l : listeners_) {\n            l->on_event(ev);")]),
('corpus-mutable',['C01'],1,[(DH,"        Eigen::VectorXf priors_;","        Eigen::VectorXf priors_;\n        mutable size_t last_;"),(D,"const std::shared_ptr<Document> EigenClassificationCorpus::at(size_t index) const {","const std::shared_ptr<Document> EigenClassificationCorpus::at(size_t index) const {\n    last_ = index;")]),
('r-swap',['C01','C05'],0,[(EV,"        events = events_;\n        events_.clear();","        events.swap(events_);")]),
('r-unique',['C01','C04','C05'],0,[(EV,"        std::lock_guard<std::mutex> l(events_mutex_);\n        events = events_;\n        events_.clear();\n    }","        std::unique_lock<std::mutex> l(events_mutex_);\n        events = std::move(events_);\n        events_.clear();\n        l.unlock();\n    }")]),
('r-scope',['C01','C05'],0,[(EV,"    std::lock_guard<std::mutex> l(events_mutex_);\n\n    events_.push_back(event);","    {\n        std::unique_lock<std::mutex> guard(events_mutex_);\n        events_.emplace_back(event);\n    }")]),
]
