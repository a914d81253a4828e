L='src/ldaplusplus/LDA.cpp'; LH='include/ldaplusplus/LDA.hpp'; EV='src/ldaplusplus/events/Events.cpp'; EVH='include/ldaplusplus/events/Events.hpp'
D='src/ldaplusplus/Document.cpp'; DH='include/ldaplusplus/Document.hpp'; EM='src/ldaplusplus/em/'; EMH='include/ldaplusplus/em/'
GD='include/ldaplusplus/optimization/GradientDescent.hpp'; U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'
def b(n,c,*e): return (n,c if isinstance(c,list) else [c],1,list(e))
def r(n,*e): return (n,['ALL'],0,list(e))
MS=EM+'MultinomialSupervisedMStep.cpp'; CM=EM+'CorrespondenceSupervisedMStep.cpp'; FO=EM+'FastOnlineSupervisedMStep.cpp'; FM=EM+'FastSupervisedMStep.cpp'; SM=EM+'SupervisedMStep.cpp'; UM=EM+'UnsupervisedMStep.cpp'; UE=EM+'UnsupervisedEStep.cpp'; SE=EM+'SupervisedEStep.cpp'; SSE=EM+'SemiSupervisedEStep.cpp'; AE=EM+'AbstractEStep.cpp'
MUTS=[
 # C01
 b('c01-static-conv','C01',(AE,'    Scalar mean_change =','    static Scalar mean_change;\n    mean_change =')),
 b('c01-guard-nolock','C01',(L,'    {\n        std::lock_guard<std::mutex> lock(lda_.queue_in_mutex_);\n        lda_.queue_in_.clear();\n    }','    lda_.queue_in_.clear();')),
 b('c01-guard-out','C01',(L,'    lda_.destroy_worker_pool();\n    lda_.queue_out_.clear();','    lda_.queue_out_.clear();\n    lda_.destroy_worker_pool();')),
 b('c01-events-unlocked','C01',(EV,'    std::list<std::shared_ptr<Event> > events;\n    {\n        std::lock_guard<std::mutex> l(events_mutex_);\n        events = events_;\n        events_.clear();\n    }','    std::list<std::shared_ptr<Event> > events;\n    {\n        std::lock_guard<std::mutex> l(events_mutex_);\n        events = events_;\n    }\n    events_.clear();')),
 b('c01-cache','C01',(DH,'        std::vector<int> indices_;','        std::vector<int> indices_;\n        mutable int last_ = 0;'),(DH,'return indices_[index];','last_ = indices_[index]; return last_;')),
 b('c01-estep-buffer','C01',(UE,'    VectorX gamma_old = VectorX::Zero(num_topics);','    VectorX &gamma_old = gamma_old_;\n    gamma_old = VectorX::Zero(num_topics);'),(EMH+'UnsupervisedEStep.hpp','        Scalar e_step_tolerance_;','        Scalar e_step_tolerance_;\n        VectorX gamma_old_;')),
 b('c01-out-empty','C01',(L,'    std::unique_lock<std::mutex> lock(queue_out_mutex_);\n    queue_out_cv_.wait','    while (queue_out_.empty())\n        std::this_thread::yield();\n    std::unique_lock<std::mutex> lock(queue_out_mutex_);\n    queue_out_cv_.wait')),
 # C02
 b('c02-retry','C02',(L,'        auto vp = e_step_->doc_e_step(\n            corpus->at(index),\n            model_parameters_\n        );\n','        auto vp = e_step_->doc_e_step(\n            corpus->at(index),\n            model_parameters_\n        );\n        if (!vp)\n            continue;\n')),
 b('c02-at0','C02',(L,'            corpus->at(index),\n            model_parameters_\n','            corpus->at(index % (corpus->size() - 1)),\n            model_parameters_\n')),
 b('c02-timeout',['C04'],(L,'    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });','    queue_out_cv_.wait_for(lock, std::chrono::seconds(5), [this](){ return !queue_out_.empty(); });')),
 b('c02-prevqueue','C02',(L,'    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_e_step\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;','    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    for (size_t i=1; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;')) if False else
 b('c02-half','C02',(L,'    for (size_t i=0; i<corpus->size(); i++) {\n        queue_in_.emplace_back(corpus, i);\n    }\n\n    // create the thread pool\n    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_m_step\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> variational','    for (int i=corpus->size()-1; i>0; i--) {\n        queue_in_.emplace_back(corpus, i);\n    }\n    queue_in_.emplace_back(corpus, 1);\n\n    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> variational')),
 # C03
 b('c03-temp','C03',(L,'    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_m_step\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> variational','    WorkerPoolGuard{*this};\n    create_worker_pool();\n\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> variational')),
 b('c03-scope','C03',(L,'    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_e_step\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;','    {\n        WorkerPoolGuard guard(*this);\n    }\n    create_worker_pool();\n\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;')),
 b('c03-detach','C03',(L,'        if (t.joinable())\n            t.join();','        if (t.joinable() && !queue_out_.empty())\n            t.detach();\n        else if (t.joinable())\n            t.join();')),
 b('c03-stop','C03',(L,'        if (t.joinable())\n            t.join();','        if (!t.joinable())\n            break;\n        t.join();\n        if (queue_in_.empty() && &t != &workers_.back())\n            return;')),
 # C04
 b('c04-move-size','C04',(L,'      workers_(lda.workers_.size()),','      workers_(lda.workers_.size() / 2),')),
 b('c04-order','C04',(EV,'    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);\n\n    deleted','    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);\n    std::lock_guard<std::mutex> l1(listeners_mutex_);\n\n    deleted'),(EV,'        std::lock(l1, l2);','        l1.lock();\n        l2.lock();')),
 b('c04-release','C04',(EV,'    std::lock_guard<std::mutex> l(events_mutex_);\n\n    events_.push_back(event);','    events_mutex_.lock();\n    if (event == nullptr)\n        return;\n    events_.push_back(event);\n    events_mutex_.unlock();')),
 b('c04-notify-empty','C04',(L,'            queue_out_.emplace_back(vp, index);\n        }\n        // talk about those results\n        queue_out_cv_.notify_one();','            queue_out_.emplace_back(vp, index);\n        }\n        if (queue_in_.empty())\n            queue_out_cv_.notify_one();')),
 # C05
 b('c05-late','C05',(EV,'    ThreadSafeEventDispatcher::dispatch(event);\n\n    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafeEventDispatcher::process_events();\n    }','    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafeEventDispatcher::process_events();\n    }\n    ThreadSafeEventDispatcher::dispatch(event);')),
 b('c05-transform-order','C05',(L,'        std::tie(vp, index) = extract_vp_from_queue();\n        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;\n\n        // Process any events that might have been added by the workers\n        process_worker_events();','        process_worker_events();\n\n        std::tie(vp, index) = extract_vp_from_queue();\n        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;')) if False else
 b('c05-stop-first','C05',(EV,'        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }\n}','        for (auto l : listeners) {\n            l->on_event(ev);\n            if (events.size() > 64)\n                break;\n        }\n    }\n}')),
 b('c05-live-list','C05',(EV,'    for (auto l : listeners) {\n        l->on_event(event);\n    }','    for (auto l : listeners_) {\n        l->on_event(event);\n    }')),
 b('c05-own-thread','C05',(EV,'    : thread_id_(std::this_thread::get_id())','    : thread_id_()')),
 b('c05-inline','C05',(EV,'    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafe','    if (std::this_thread::get_id() == thread_id_ || std::dynamic_pointer_cast<Event>(event)->id() == "EpochProgressEvent") {\n        ThreadSafe')),
 b('c05-lifo','C05',(EV,'    events_.push_back(event);','    events_.insert(events_.begin(), event);')),
 b('c05-cap','C05',(EV,'    events_.push_back(event);','    if (events_.size() < 10000)\n        events_.push_back(event);')),
 b('c05-remove-all','C05',(EV,'        deleted_listeners_.clear();','        if (listeners_.empty())\n            deleted_listeners_.clear();')),
 # C06
 b('c06-empty-doc','C06',(UE,'    int num_topics = beta.rows();\n\n','    int num_topics = beta.rows();\n    if (num_words == 0)\n        return std::make_shared<parameters::VariationalParameters<Scalar> >(alpha, MatrixX::Constant(num_topics, X.rows(), 1.0/num_topics));\n\n')),
 b('c06-conv-event','C06',(SE,'        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            break;','        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<Scalar> >(NAN);\n            break;')),
 b('c06-periodic','C06',(L,'            variational_parameters,\n            model_parameters_  // output\n        );\n','            variational_parameters,\n            model_parameters_  // output\n        );\n        if (i % 10000 == 9999)\n            e_step_->e_step();\n')),
 b('c06-fwd','C06',(SSE,'    unsupervised_step_->get_event_dispatcher()->add_listener(event_forwarder_);\n','')),
 b('c06-fwd-twice','C06',(SSE,'    unsupervised_step_->get_event_dispatcher()->add_listener(event_forwarder_);\n','    unsupervised_step_->get_event_dispatcher()->add_listener(event_forwarder_);\n    supervised_step_->get_event_dispatcher()->add_listener(event_forwarder_);\n')),
 b('c06-semi-estep','C06',(SSE,'    supervised_step_->e_step();\n    unsupervised_step_->e_step();','    supervised_step_->e_step();')),
 b('c06-like-other','C06',(UE,'                    X, alpha, beta, phi, gamma\n','                    X, alpha, beta, phi, gamma_old\n')),
 # C07
 b('c07-transform','C07',(L,'    MatrixX gammas(model->beta.rows(), X.cols());','    MatrixX gammas(model->beta.rows(), X.cols());\n    math_utils::normalize_rows(model->beta);')),
 b('c07-alpha','C07',(FO,'    MatrixX & eta = model->eta;','    MatrixX & eta = model->eta;\n    model->alpha.array() += 1e-9;')),
 # C08
 b('c08-h-assign','C08',(MS,'    h_.col(y) += phi_scaled_sum_;','    h_.col(y) = phi_scaled_sum_;')),
 b('c08-b-assign','C08',(CM,'    b_ += phi_scaled_;','    b_ = phi_scaled_;')),
 b('c08-logpy-early','C08',(MS,'    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(\n        log_py_\n    );\n','',),(MS,'    log_py_ = 0;\n}','    log_py_ = 0;\n\n    this->get_event_dispatcher()->template dispatch<events::MaximizationProgressEvent<Scalar> >(\n        log_py_\n    );\n}')),
 b('c08-docs-words','C08',(FM,'        expected_z_bar_.col(docs_).array() /= words_in_doc;\n    }\n\n    docs_ += 1;','        expected_z_bar_.col(docs_).array() /= words_in_doc;\n        docs_ += 1;\n    }\n')) ,
 b('c08-online-gt','C08',(FO,'    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step','    if (docs_seen_so_far_ > minibatch_size_)\n        m_step')),
 b('c08-online-late','C08',(FO,'    if (docs_seen_so_far_ < minibatch_size_)\n        return;','    if (docs_seen_so_far_ == 0)\n        return;')),
 b('c08-online-reset','C08',(FO,'    docs_seen_so_far_ = 0;\n','    docs_seen_so_far_ -= minibatch_size_ - 1;\n')),
 b('c08-noresize','C08',(SM,'    y_.conservativeResize(docs_);\n    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);\n    variance_z_bar_.resize(docs_);\n','')),
 b('c08-keep-b','C08',(UM,'    b_.fill(0);','    b_ *= 0.5;')),
 b('c08-alloc-guard','C08',(UM,'    if (b_.rows() == 0)\n','    if (b_.rows() == 0 || X.sum() == 0)\n')),
 b('c08-h-realloc','C08',(CM,'    if (b_.rows() == 0) {','    if (b_.sum() == 0) {')) if False else
 b('c08-h-kept','C08',(CM,'    h_.fill(0);\n','')),
 # C15 / C16
 b('c15-at-index','C15',(D,'            X_.col(i),\n','            X_.col(index),\n')),
 b('c15-size','C15',(D,'size_t EigenClassificationCorpus::size() const {\n    return X_.cols();','size_t EigenClassificationCorpus::size() const {\n    return X_.rows();')),
 b('c15-iota1','C15',(D,'std::iota(indices_.begin(), indices_.end(), 0);','std::iota(indices_.begin() + 1, indices_.end(), 0);')),
 b('c16-prior','C16',(D,'        if (y_[i] >= 0)\n            priors_','        if (y_[i] != -1)\n            priors_')),
 b('c16-lt','C16',(SSE,'->get_class() < 0)','->get_class() <= 0)')),
 b('c16-eq','C16',(EM+'SemiSupervisedMStep.cpp','->get_class() < 0)','->get_class() == -1)')),
 # C17
 b('c17-default','C17',(D,'      prng_(random_state)\n','      prng_()\n')),
 b('c17-reseed','C17',(D,'    std::shuffle(indices_','    prng_.seed(indices_.size());\n    std::shuffle(indices_')),
 b('c17-drop','C17',(D,'EigenCorpus::EigenCorpus(const Eigen::MatrixXi &X, int random_state)\n    : indices_(X.cols(), random_state),','EigenCorpus::EigenCorpus(const Eigen::MatrixXi &X, int random_state)\n    : indices_(X.cols(), X.rows()),')),
 b('c17-estep','C17',(AE,'    : random_(random_state)','    : random_(0 * random_state)')),
 b('c17-addr','C17',(AE,'    : random_(random_state)','    : random_(random_state ^ (reinterpret_cast<size_t>(this) & 1))')),
 # C22
 b('c22-doc','C22',(UE,'    int num_words = X.sum();','    int num_words = X.sum();\n    if (std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() < -1)\n        num_words = 0;')),
 b('c22-vp','C22',(MS,'std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)->phi;','std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<Scalar> >(v_parameters)->phi;')),
 b('c22-disp','C22',(L,'std::make_shared<events::SameThreadEventDispatcher>()','std::make_shared<events::EventDispatcher>()')),
 # C27
 b('c27-progress','C27',(GD,'            std::function<bool(Scalar, Scalar, size_t)> progress\n','            const std::function<bool(Scalar, Scalar, size_t)> &progress\n'),(GD,'        std::function<bool(Scalar, Scalar, size_t)> progress_;','        const std::function<bool(Scalar, Scalar, size_t)> &progress_;')),
 b('c27-doc','C27',(DH,'        Eigen::VectorXi X_;','        const Eigen::VectorXi &X_;'),(D,'    : X_(std::move(X)),','    : X_(X),')),
 b('c27-erase','C27',(EV,'            listeners_.erase(it);\n            break;','            listeners_.erase(it);')),
 b('c27-erase2','C27',(EV,'                l = listeners_.erase(l);','                listeners_.erase(l++);\n                if (listeners_.empty()) l = listeners_.begin();')) if False else
 b('c27-erase3','C27',(EV,'                l = listeners_.erase(l);','                listeners_.erase(l);')),
 b('c27-listener','C27',(EVH,'        std::function<void(std::shared_ptr<Event>)> listener_;','        const std::function<void(std::shared_ptr<Event>)> &listener_;')),
 b('c27-unregister','C27',(SSE,'    supervised_step_->get_event_dispatcher()->remove_listener(event_forwarder_);\n    unsup','    unsup')),
 b('c27-expr','C27',(L,'    MatrixX expected_z_bar = X.colwise() - model->alpha;\n    math_utils::normalize_cols(expected_z_bar);\n\n    // finally return the linear scores like a boss\n    return model->eta.transpose() * expected_z_bar;','    auto expected_z_bar = MatrixX(X.colwise() - model->alpha).transpose();\n    MatrixX z = expected_z_bar.transpose();\n    math_utils::normalize_cols(z);\n\n    return model->eta.transpose() * z;')),
 # C28
 b('c28-gamma-old','C28',(UE,'    VectorX gamma_old = VectorX::Zero(num_topics);','    VectorX gamma_old(num_topics);')),
 b('c28-h','C28',(SE,'    VectorX h = VectorX::Zero(num_topics);','    VectorX h(num_topics);')),
 b('c28-docs','C28',(FO,'    eta_learning_rate_(eta_learning_rate),\n    docs_seen_so_far_(0)\n','    eta_learning_rate_(eta_learning_rate)\n')),
 b('c28-priors','C28',(D,'    priors_.fill(0);\n','')),
 b('c28-gammas','C28',(L,'    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;','    for (size_t i=0; i+1<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;')) if False else
 b('c28-velocity','C28',(FO,'        eta_velocity_ = MatrixX::Zero(phi.rows(), num_classes_);','        eta_velocity_.resize(phi.rows(), num_classes_);')),
 b('c28-b','C28',(UM,'        b_ = MatrixX::Zero(phi.rows(), phi.cols());','        b_.resize(phi.rows(), phi.cols());')),
 # C20
 b('c20-fit','C20',(L,'    auto corpus = get_corpus(X);\n\n    for (size_t i=0; i<iterations_; i++) {','    auto corpus = get_corpus(X);\n\n    for (size_t i=1; i<iterations_; i++) {')),
 b('c20-conv-le','C20',(AE,'    return mean_change < tolerance;','    return mean_change > tolerance;')),
 b('c20-conv-abs','C20',(AE,'(gamma_old - gamma).array().abs().sum()','(gamma_old - gamma).array().sum()')),
 b('c20-gamma-old','C20',(UE,'        gamma_old = gamma;\n','')),
 # refactorings
 r('r-conv-lp',(AE,'(gamma_old - gamma).array().abs().sum() / gamma.rows()','(gamma_old - gamma).template lpNorm<1>() / gamma.rows()')),
 r('r-conv-ret',(AE,'    Scalar mean_change = (gamma_old - gamma).array().abs().sum() / gamma.rows();\n\n    return mean_change < tolerance;','    return (gamma - gamma_old).array().abs().mean() < tolerance;')),
 r('r-join-helper',(L,'        if (t.joinable())\n            t.join();','        if (!t.joinable())\n            continue;\n        t.join();')),
 r('r-worker-take',(L,'            if (queue_in_.empty())\n                break;\n            std::tie(corpus, index) = queue_in_.front();\n            queue_in_.pop_front();','            if (queue_in_.empty())\n                return;\n            auto item = queue_in_.front();\n            queue_in_.pop_front();\n            corpus = std::get<0>(item);\n            index = std::get<1>(item);')),
 r('r-wait-loop',(L,'    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });','    while (queue_out_.empty())\n        queue_out_cv_.wait(lock);')),
 r('r-notify-in',(L,'            queue_out_.emplace_back(vp, index);\n        }\n        // talk about those results\n        queue_out_cv_.notify_one();','            queue_out_.emplace_back(vp, index);\n            queue_out_cv_.notify_one();\n        }')),
 r('r-remove-find',(EV,'    for (auto it = listeners_.begin(); it != listeners_.end(); it++) {\n        if (*it == listener) {\n            listeners_.erase(it);\n            break;\n        }\n    }','    auto it = listeners_.begin();\n    while (it != listeners_.end() && *it != listener)\n        ++it;\n    if (it != listeners_.end())\n        listeners_.erase(it);')),
 r('r-events-move',(EV,'        events = events_;\n        events_.clear();','        events.splice(events.end(), events_);')),
 r('r-same-thread',(EV,'    ThreadSafeEventDispatcher::dispatch(event);\n\n    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafeEventDispatcher::process_events();\n    }','    ThreadSafeEventDispatcher::dispatch(event);\n\n    bool owner = thread_id_ == std::this_thread::get_id();\n    if (!owner)\n        return;\n    process_events();')),
 r('r-mult-local',(MS,'    model->beta = b_;\n    model->eta = h_.array() + mu_ - 1;\n    math_utils::normalize_rows(model->beta);\n    math_utils::normalize_rows(model->eta);','    MatrixX &beta = model->beta;\n    MatrixX &eta = model->eta;\n    beta = b_;\n    math_utils::normalize_rows(beta);\n    eta = (mu_ - 1) + h_.array();\n    math_utils::normalize_rows(eta);')),
 r('r-mult-zero',(MS,'    b_.fill(0);\n    h_.fill(0);','    b_.setZero();\n    h_.setZero();')),
 r('r-online-inc',(FO,'    docs_seen_so_far_++;\n\n    // When we have seen','    ++docs_seen_so_far_;\n\n    // When we have seen')) if False else
 r('r-online-guard',(FO,'    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step(m_parameters);','    if (docs_seen_so_far_ == minibatch_size_) {\n        m_step(m_parameters);\n    }')),
 r('r-online-mix',(FO,'    beta.array() = (\n        beta_weight_ * beta.array() +\n        (1-beta_weight_) * new_beta.array()\n    );','    beta *= beta_weight_;\n    beta += (1 - beta_weight_) * new_beta;')),
 r('r-fast-z',(FM,'    expected_z_bar_.col(docs_) = gamma - alpha;\n    auto words_in_doc = expected_z_bar_.col(docs_).sum();\n    if (words_in_doc != 0) {\n        expected_z_bar_.col(docs_).array() /= words_in_doc;\n    }','    VectorX z_bar = gamma - alpha;\n    Scalar words_in_doc = z_bar.sum();\n    if (words_in_doc != 0)\n        z_bar /= words_in_doc;\n    expected_z_bar_.col(docs_) = z_bar;')) if False else
 r('r-doc-locals',(UM,'    auto t1 = X.cast<Scalar>().transpose().array();\n','    VectorX counts = X.cast<Scalar>();\n'),(UM,'    auto t2 = phi.array().rowwise() * t1;\n','    MatrixX t2 = phi * counts.asDiagonal();\n'),(UM,'    b_.array() += t2;','    b_ += t2;')),
 r('r-corpus-at',(D,'    return std::make_shared<ClassificationDecorator>(\n        std::make_shared<EigenDocument>(\n            X_.col(i),\n            std::shared_ptr<const Corpus>(this, [](const Corpus*){})\n        ),\n        y_[i]\n    );','    auto self = std::shared_ptr<const Corpus>(this, [](const Corpus*){});\n    auto words = std::make_shared<EigenDocument>(X_.col(i), self);\n    int label = y_[i];\n\n    return std::make_shared<ClassificationDecorator>(words, label);')),
 r('r-priors',(D,'        if (y_[i] >= 0)\n            priors_[y_[i]] ++;','        if (y_[i] < 0)\n            continue;\n        priors_[y_[i]] += 1;')),
 r('r-shuffle-iota',(D,'    std::iota(indices_.begin(), indices_.end(), 0);','    for (int i=0; i<N; i++)\n        indices_[i] = i;')),
 r('r-predict-colmax',(L,'    for (int d=0; d<scores.cols(); d++) {\n        scores.col(d).maxCoeff( &predictions[d] );\n    }','    int documents = scores.cols();\n    for (int d=0; d<documents; ++d) {\n        int best = 0;\n        scores.col(d).maxCoeff(&best);\n        predictions(d) = best;\n    }')),
 r('r-transform-vp',(L,'        gammas.col(index) = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp)->gamma;','        auto document_parameters = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(vp);\n        gammas.col(index) = document_parameters->gamma;')),
 r('r-estep-likelihood',(UE,'    if (emit_likelihood(this->get_prng())) {\n        this->get_event_dispatcher()->\n            template dispatch<events::ExpectationProgressEvent<Scalar> >(\n                e_step_utils::compute_unsupervised_likelihood(\n                    X, alpha, beta, phi, gamma\n                )\n            );\n    } else {\n        this->get_event_dispatcher()->\n            template dispatch<events::ExpectationProgressEvent<Scalar> >(NAN);\n    }','    Scalar likelihood = NAN;\n    if (emit_likelihood(this->get_prng()))\n        likelihood = e_step_utils::compute_unsupervised_likelihood(X, alpha, beta, phi, gamma);\n    this->get_event_dispatcher()->template dispatch<events::ExpectationProgressEvent<Scalar> >(likelihood);')),
 r('r-estep-while',(UE,'    for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {\n        // check for early stopping\n        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            break;\n        }\n','    size_t iteration = 0;\n    while (iteration < e_step_iterations_ && !this->converged(gamma_old, gamma, e_step_tolerance_)) {\n        iteration++;\n')),
 r('r-mstep-improve',(FM,'            Scalar relative_improvement = (initial_value - value) / value;\n            initial_value = value;\n\n            return (\n                iterations < m_step_iterations_ &&\n                relative_improvement > m_step_tolerance_\n            );','            if (iterations >= m_step_iterations_)\n                return false;\n            Scalar relative_improvement = (initial_value - value) / value;\n            initial_value = value;\n\n            return relative_improvement > m_step_tolerance_;')),
 r('r-online-alloc',(FO,'        expected_z_bar_ = MatrixX::Zero(phi.rows(), minibatch_size_);\n        y_ = Eigen::VectorXi::Zero(minibatch_size_);','        expected_z_bar_.resize(phi.rows(), minibatch_size_);\n        y_.resize(minibatch_size_);'),(FO,'        eta_gradient_ = MatrixX::Zero(phi.rows(), num_classes_);','        eta_gradient_.resize(phi.rows(), num_classes_);')),
 r('r-delete-guard',(EV,'        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {','        if (!deleted_listeners_.empty()) for (auto l=listeners_.begin(); l!=listeners_.end(); ) {')),
]
