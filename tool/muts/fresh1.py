L='src/ldaplusplus/LDA.cpp'; EV='src/ldaplusplus/events/Events.cpp'; D='src/ldaplusplus/Document.cpp'; DH='include/ldaplusplus/Document.hpp'; LH='include/ldaplusplus/LDA.hpp'
EM='src/ldaplusplus/em/'; EH='include/ldaplusplus/em/'; EU='src/ldaplusplus/e_step_utils.cpp'; U='include/ldaplusplus/utils.hpp'; EVH='include/ldaplusplus/events/Events.hpp'
def b(n,c,*e): return (n,c if isinstance(c,list) else [c],1,list(e))
def r(n,*e): return (n,['ALL'],0,list(e))
CONV='''        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
            break;
        }
        gamma_old = gamma;
'''
MUTS=[
 # races
 b('c01-early-out','C01',(EV,'    // first lock the queue and the deleted','    if (events_.empty())\n        return;\n    // first lock the queue and the deleted')),
 b('c01-unlocked-pop','C01',(L,'    auto f = queue_out_.front();\n    queue_out_.pop_front();','    auto f = queue_out_.front();\n    lock.unlock();\n    queue_out_.pop_front();')),
 b('c01-peek','C01',(L,'    while (true) {\n        // extract a job\n','    while (!queue_in_.empty()) {\n        // extract a job\n')),
 b('c01-late-shuffle','C01',(L,'    // Shuffle the documents for a randomized pass through\n    corpus->shuffle();\n',''),(L,'    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_m_step','    create_worker_pool();\n    corpus->shuffle();\n\n    // Extract variational parameters and calculate the doc_m_step')),
 b('c01-static-buffer','C01',(EU,'    VectorX<Scalar> z_bar = VectorX<Scalar>::Zero(phi.rows());','    static VectorX<Scalar> z_bar;\n    z_bar = VectorX<Scalar>::Zero(phi.rows());')),
 b('c01-count-docs','C01',(D,'    int i = indices_.get_index(index);\n\n    return std::make_shared<EigenDocument>(X_.col(i));','    int i = indices_.get_index(index);\n    served_++;\n\n    return std::make_shared<EigenDocument>(X_.col(i));'),(DH,'        CorpusIndexes indices_;\n\n        /**','        CorpusIndexes indices_;\n        mutable size_t served_ = 0;\n\n        /**')),
 b('c01-estep-in-worker','C01',(EM+'FastSupervisedEStep.cpp','    int num_words = X.sum();\n','    int num_words = X.sum();\n    if (num_words == 0)\n        epochs_ = 0;\n')),
 b('c01-prng','C01',(U,'            std::lock_guard<std::mutex> lock(*prng_mutex_);\n\n            return (*prng_)();','            PRNG *prng;\n            {\n                std::lock_guard<std::mutex> lock(*prng_mutex_);\n                prng = prng_.get();\n            }\n\n            return (*prng)();')),
 b('c01-two-mutexes','C01',(EV,'        std::lock_guard<std::mutex> l(listeners_mutex_);\n        listeners = listeners_;','        std::lock_guard<std::mutex> l(deleted_listeners_mutex_);\n        listeners = listeners_;')),
 b('c01-live-listener','C01',(EV,'    std::lock_guard<std::mutex> l(deleted_listeners_mutex_);\n\n    deleted_listeners_.insert(listener);','    listeners_.remove(listener);')),
 # each document once
 b('c02-shuffle-between','C02',(L,'    // Extract variational parameters and calculate the doc_m_step\n','    // Extract variational parameters and calculate the doc_m_step\n    auto permuted = corpus;\n'),(L,'            corpus->at(index),\n            variational_parameters,','            corpus->at(corpus->size() - 1 - index),\n            variational_parameters,')),
 b('c02-back','C02',(L,'    auto f = queue_out_.front();\n','    auto f = queue_out_.back();\n')),
 b('c02-backin','C02',(L,'            std::tie(corpus, index) = queue_in_.front();\n','            std::tie(corpus, index) = queue_in_.back();\n')),
 b('c02-skip-last','C02',(L,'    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;','    for (size_t i=1; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> vp;')),
 b('c02-transform-shuffle','C02',(L,'    auto corpus = get_corpus(X);\n\n    // Queue','    auto corpus = get_corpus(X);\n    corpus->shuffle();\n\n    // Queue')),
 b('c02-drop-empty','C02',(L,'        // show some results\n        {','        // show some results\n        if (corpus->at(index)->get_words().sum() > 0 || queue_out_.empty()) {')),
 b('c02-queue-left','C02',(L,'    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_e_step','    create_worker_pool();\n    if (corpus->size() == 1)\n        queue_in_.emplace_back(corpus, 0);\n\n    // Extract variational parameters and calculate the doc_e_step')),
 b('c02-skip-unlabelled','C02',(L,'        // perform the online part of m step\n','        if (std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(variational_parameters)->gamma.sum() == 0)\n            continue;\n\n        // perform the online part of m step\n')),
 # joined
 b('c03-first-only','C03',(L,'        if (t.joinable())\n            t.join();','        if (!t.joinable())\n            break;\n        t.join();\n        if (queue_in_.empty())\n            break;')),
 b('c03-reverse','C03',(L,'    for (auto & t : workers_) {\n        if (t.joinable())\n            t.join();\n    }','    for (size_t i=workers_.size()-1; i>0; i--) {\n        if (workers_[i].joinable())\n            workers_[i].join();\n    }')),
 b('c03-copy','C03',(L,'    for (auto & t : workers_) {\n        if (t.joinable())\n            t.join();','    for (auto & t : workers_) {\n        if (t.joinable() && queue_in_.empty())\n            t.join();')),
 # wake-up
 b('c04-notify-first','C04',(L,'''        {
            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }
        // talk about those results
        queue_out_cv_.notify_one();''','''        queue_out_cv_.notify_one();
        {
            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }''')),
 b('c04-if-wait','C04',(L,'    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });','    if (queue_out_.empty())\n        queue_out_cv_.wait(lock);')),
 b('c04-wrong-pred','C04',(L,'[this](){ return !queue_out_.empty(); }','[this](){ return !queue_out_.empty() || queue_in_.empty(); }')),
 b('c04-other-mutex','C04',(L,'            std::lock_guard<std::mutex> lock(queue_out_mutex_);\n            queue_out_.emplace_back','            std::lock_guard<std::mutex> lock(queue_in_mutex_);\n            queue_out_.emplace_back')),
 b('c04-nested','C04',(EV,'        std::lock_guard<std::mutex> l(events_mutex_);\n        events = events_;','        std::lock_guard<std::mutex> l(events_mutex_);\n        std::lock_guard<std::mutex> l2(listeners_mutex_);\n        events = events_;'),(EV,'    std::lock_guard<std::mutex> l(listeners_mutex_);\n\n    listeners_.push_back(listener);','    std::lock_guard<std::mutex> l(listeners_mutex_);\n    std::lock_guard<std::mutex> l2(events_mutex_);\n\n    listeners_.push_back(listener);')),
 b('c04-dispatch-locked','C04',(L,'            queue_out_.emplace_back(vp, index);\n','            queue_out_.emplace_back(vp, index);\n            if (queue_out_.size() > 1)\n                continue;\n')) ,
 # events
 b('c05-clear-late','C05',(EV,'        events = events_;\n        events_.clear();\n    }','        events = events_;\n    }'),(EV,'            l->on_event(ev);\n        }\n    }\n','            l->on_event(ev);\n        }\n    }\n    std::lock_guard<std::mutex> l(events_mutex_);\n    events_.clear();\n')),
 b('c05-front','C05',(EV,'    events_.push_back(event);','    events_.push_front(event);')),
 b('c05-skip-order','C05',(EV,'        for (auto l : listeners) {\n            l->on_event(ev);\n        }','        for (auto l : listeners) {\n            l->on_event(ev);\n            if (ev->id().empty())\n                break;\n        }')),
 b('c05-del-keep','C05',(EV,'        deleted_listeners_.clear();\n','')),
 b('c05-locked','C05',(EV,'        listeners = listeners_;\n    }\n\n    // dispatch events without worry\n    for (auto ev : events) {\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }','        listeners = listeners_;\n\n    // dispatch events without worry\n    for (auto ev : events) {\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }\n    }')),
 b('c05-worker-delivers','C05',(EV,'    if (std::this_thread::get_id() == thread_id_) {','    if (std::this_thread::get_id() == thread_id_ || event.use_count() > 2) {')),
 b('c05-swap-in-loop','C05',(L,'    process_worker_events();\n','    if (i % 2 == 0)\n            process_worker_events();\n')) if False else
 b('c05-thread-id','C05',(EV,'    ThreadSafeEventDispatcher::dispatch(event);\n\n    if (std::this_thread::get_id() == thread_id_) {\n','    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafeEventDispatcher::dispatch(event);\n')),
 b('c05-dedupe','C05',(EV,'    events_.push_back(event);','    if (events_.empty() || events_.back()->id() != event->id())\n        events_.push_back(event);')),
 b('c05-move-ctor','C05',(L,'      event_dispatcher_(std::move(lda.event_dispatcher_))\n{}','      event_dispatcher_(std::make_shared<events::SameThreadEventDispatcher>())\n{\n    set_up_event_dispatcher();\n}')),
 # progress events
 b('c06-only-finite','C06',(EM+'UnsupervisedEStep.cpp','    if (emit_likelihood(this->get_prng())) {','    if (num_words > 0 && emit_likelihood(this->get_prng())) {'),(EM+'UnsupervisedEStep.cpp','    } else {\n        this->get_event','    } else if (num_words > 0) {\n        this->get_event')),
 b('c06-zero','C06',(EM+'SupervisedEStep.cpp','ExpectationProgressEvent<Scalar> >(NAN)','ExpectationProgressEvent<Scalar> >(0)')),
 b('c06-mstep-before-join','C06',(L,'    // destroy the thread pool\n    destroy_worker_pool();\n\n    // Perform any corpuswise action related to e step\n    e_step_->e_step();','    // Perform any corpuswise action related to e step\n    e_step_->e_step();\n\n    // destroy the thread pool\n    destroy_worker_pool();')),
 b('c06-epoch-early','C06',(L,'''    // perform the batch part of m step
    m_step_->m_step(
        model_parameters_  // output
    );

    // inform the world that the epoch is over
    get_event_dispatcher()->template dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);''','''    // inform the world that the epoch is over
    get_event_dispatcher()->template dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);

    // perform the batch part of m step
    m_step_->m_step(
        model_parameters_  // output
    );''')),
 b('c06-no-estep','C06',(EM+'SemiSupervisedEStep.cpp','    supervised_step_->e_step();\n','')),
 b('c06-transform-estep','C06',(L,'    return gammas;\n}','    e_step_->e_step();\n    return gammas;\n}')),
 # model unchanged
 b('c07-const-cast','C07',(EM+'UnsupervisedEStep.cpp','    const VectorX &alpha = std::static','    VectorX &alpha = std::static'),(EM+'UnsupervisedEStep.cpp','    // to check for convergence\n','    if (num_words == 0)\n        alpha = alpha.cwiseMax(1e-3);\n    // to check for convergence\n')),
 b('c07-score','C07',(L,'    MatrixX expected_z_bar = X.colwise() - model->alpha;\n','    math_utils::normalize_cols(model->eta);\n    MatrixX expected_z_bar = X.colwise() - model->alpha;\n')),
 b('c07-alpha-mstep','C07',(EM+'FastOnlineSupervisedMStep.cpp','    eta += eta_velocity_;\n','    eta += eta_velocity_;\n    model->alpha.array() += 0 * eta.sum();\n')),
 # statistics
 b('c08-online-reset','C08',(EM+'FastOnlineSupervisedMStep.cpp','    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step','    if (docs_seen_so_far_ > minibatch_size_)\n        m_step')),
 b('c08-only-big','C08',(EM+'MultinomialSupervisedMStep.cpp','    b_ += phi_scaled_;\n','    if (phi_scaled_.sum() > 1)\n        b_ += phi_scaled_;\n')),
 b('c08-logpy','C08',(EM+'CorrespondenceSupervisedMStep.cpp','    h_.fill(0);\n    log_py_ = 0;\n','    h_.fill(0);\n')),
 b('c08-b-kept','C08',(EM+'UnsupervisedMStep.cpp','    b_.fill(0);\n','    b_ = model->beta;\n')),
 b('c08-early-return','C08',(EM+'MultinomialSupervisedMStep.cpp','    // Report the log_py\n','    if (log_py_ == 0)\n        return;\n    // Report the log_py\n')),
 b('c08-fast-docs','C08',(EM+'FastSupervisedMStep.cpp','    docs_ = 0;\n','')),
 b('c08-resize-more','C08',(EM+'FastSupervisedMStep.cpp','    y_.conservativeResize(docs_);\n    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);\n','    if (docs_ > y_.rows()) {\n    y_.conservativeResize(docs_);\n    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);\n    }\n')),
 b('c08-realloc','C08',(EM+'UnsupervisedMStep.cpp','    if (b_.rows() == 0)\n','    if (b_.sum() == 0 || b_.cols() != phi.cols() || t1.sum() == 0)\n')),
 # corpus
 b('c15-labels','C15',(D,'        y_[i]\n','        y_[index]\n')),
 b('c15-iota','C15',(D,'    std::iota(indices_.begin(), indices_.end(), 0);','    std::iota(indices_.begin(), indices_.end()-1, 0);')),
 b('c15-prior','C15',(D,'        priors_.array() /= priors_.sum();','        priors_.array() /= y_.rows();')),
 b('c15-partial','C15',(D,'    std::shuffle(indices_.begin(), indices_.end(), prng_);','    for (size_t i=1; i<indices_.size(); i++)\n        indices_[i] = indices_[prng_() % i];')),
 b('c16-zero','C16',(EM+'SemiSupervisedEStep.cpp','->get_class() < 0)','->get_class() <= 0)')),
 b('c16-mstep','C16',(EM+'SemiSupervisedMStep.cpp','->get_class() < 0)','->get_class() == -1)')),
 b('c16-swap','C16',(EM+'SemiSupervisedMStep.cpp','        UnsupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);\n    } else {\n        FastSupervisedMStep<Scalar>','        FastSupervisedMStep<Scalar>::doc_m_step(doc, v_parameters, m_parameters);\n    } else {\n        FastSupervisedMStep<Scalar>')),
 # refactorings
 r('r-emptyq',(L,'            if (queue_in_.empty())\n                break;\n','            if (!queue_in_.size())\n                return;\n')),
 r('r-swap-events',(EV,'        events = events_;\n        events_.clear();','        events.swap(events_);')),
 r('r-splice',(EV,'        events = events_;\n        events_.clear();','        events.splice(events.end(), events_);')),
 r('r-while-events',(EV,'    for (auto ev : events) {\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }','    while (!events.empty()) {\n        auto ev = events.front();\n        events.pop_front();\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }')),
 r('r-removeif',(EV,'''        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
            if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                l = listeners_.erase(l);
            } else {
                l++;
            }
        }
''','''        listeners_.remove_if([this](const std::shared_ptr<EventListenerInterface> &l) {
            return deleted_listeners_.count(l) > 0;
        });
''')),
 r('r-pool-idx',(L,'''    for (auto & t : workers_) {
        if (t.joinable())
            t.join();
    }''','''    for (size_t i=0; i<workers_.size(); i++) {
        if (!workers_[i].joinable())
            continue;
        workers_[i].join();
    }''')),
 r('r-lambda-thread',(L,'            std::bind(&LDA<Scalar>::doc_e_step_worker, this)','            [this]() { doc_e_step_worker(); }')),
 r('r-fit-helper',(L,'''    auto corpus = get_corpus(X, y);

    for (size_t i=0; i<iterations_; i++) {
        partial_fit(corpus);
    }''','''    auto corpus = get_corpus(X, y);
    size_t remaining = iterations_;

    while (remaining-- > 0)
        partial_fit(corpus);''')),
 r('r-n-docs',(L,'''    // Extract variational parameters and calculate the doc_m_step
    for (size_t i=0; i<corpus->size(); i++) {''','''    // Extract variational parameters and calculate the doc_m_step
    const size_t num_docs = corpus->size();
    for (size_t i=num_docs; i>0; i--) {''')),
 r('r-result-var',(L,'        std::tie(vp, index) = extract_vp_from_queue();\n        gammas.col(index)','        auto result = extract_vp_from_queue();\n        vp = std::get<0>(result);\n        index = std::get<1>(result);\n        gammas.col(index)')),
 r('r-conv-while',(EM+'UnsupervisedEStep.cpp','''    for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
        // check for early stopping
'''+CONV,'''    size_t iteration = 0;
    while (iteration < e_step_iterations_ && !this->converged(gamma_old, gamma, e_step_tolerance_)) {
        iteration++;
        gamma_old = gamma;
''')),
 r('r-event-value',(EM+'UnsupervisedEStep.cpp','''    if (emit_likelihood(this->get_prng())) {
        this->get_event_dispatcher()->
            template dispatch<events::ExpectationProgressEvent<Scalar> >(
                e_step_utils::compute_unsupervised_likelihood(
                    X, alpha, beta, phi, gamma
                )
            );
    } else {
        this->get_event_dispatcher()->
            template dispatch<events::ExpectationProgressEvent<Scalar> >(NAN);
    }
''','''    Scalar likelihood = NAN;
    if (emit_likelihood(this->get_prng()))
        likelihood = e_step_utils::compute_unsupervised_likelihood(X, alpha, beta, phi, gamma);
    this->get_event_dispatcher()->
        template dispatch<events::ExpectationProgressEvent<Scalar> >(likelihood);
''')),
 r('r-model-cast',(EM+'FastSupervisedEStep.cpp','''    const VectorX &alpha = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->alpha;
    const MatrixX &beta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->beta;
    const MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
''','''    auto model = std::static_pointer_cast<const parameters::SupervisedModelParameters<Scalar> >(parameters);
    const VectorX &alpha = model->alpha;
    const MatrixX &beta = model->beta;
    const MatrixX &eta = model->eta;
''')),
 r('r-weight-if',(EM+'FastSupervisedEStep.cpp','''    switch (weight_type_) {
        case ExponentialDecay:
            return std::pow(C_, epochs_);
        default:
        case Constant:
            return C_;
    }''','''    if (weight_type_ == ExponentialDecay)
        return std::pow(C_, epochs_);
    return C_;''')),
 r('r-semi-tern',(EM+'SemiSupervisedEStep.cpp','''    if (std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() < 0) {
        return unsupervised_step_->doc_e_step(doc, parameters);
    } else {
        return supervised_step_->doc_e_step(doc, parameters);
    }''','''    const bool labelled = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() >= 0;
    auto &step = labelled ? supervised_step_ : unsupervised_step_;
    return step->doc_e_step(doc, parameters);''')),
 r('r-converged-mean',(EM+'AbstractEStep.cpp','    Scalar mean_change = (gamma_old - gamma).array().abs().sum() / gamma.rows();\n','    Scalar mean_change = (gamma - gamma_old).cwiseAbs().mean();\n')),
 r('r-mstep-norm',(EM+'UnsupervisedMStep.cpp','    model->beta = b_;\n    math_utils::normalize_rows(model->beta);\n\n    b_.fill(0);','    math_utils::normalize_rows(b_);\n    model->beta = b_;\n\n    b_.setZero();')),
 r('r-mstep-swap',(EM+'MultinomialSupervisedMStep.cpp','    model->beta = b_;\n    model->eta = h_.array() + mu_ - 1;\n    math_utils::normalize_rows(model->beta);\n    math_utils::normalize_rows(model->eta);','    model->eta = h_.array() + (mu_ - 1);\n    math_utils::normalize_rows(model->eta);\n    model->beta = b_;\n    math_utils::normalize_rows(model->beta);')),
 r('r-online-init',(EM+'FastOnlineSupervisedMStep.cpp','    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step(m_parameters);','    if (docs_seen_so_far_ < minibatch_size_)\n        return;\n\n    m_step(m_parameters);')),
 r('r-normalize',(U,'''        s = x.col(i).sum();
        if (s != 0) {
            x.col(i).array() /= s;
        }''','''        s = x.col(i).sum();
        if (s == 0)
            continue;
        x.col(i) /= s;''')),
 r('r-words-helper',(EM+'FastSupervisedMStep.cpp','''    auto words_in_doc = expected_z_bar_.col(docs_).sum();
    if (words_in_doc != 0) {
        expected_z_bar_.col(docs_).array() /= words_in_doc;
    }
''','''    const Scalar words_in_doc = expected_z_bar_.col(docs_).sum();
    expected_z_bar_.col(docs_) /= (words_in_doc != 0 ? words_in_doc : Scalar(1));
''')),
 r('r-zbar-vec',(EM+'FastSupervisedMStep.cpp','''    expected_z_bar_.col(docs_) = gamma - alpha;
    // TODO: Maybe move the following normalization to m_step() and call
    //       math_utils::normalize_cols()
    auto words_in_doc = expected_z_bar_.col(docs_).sum();
    if (words_in_doc != 0) {
        expected_z_bar_.col(docs_).array() /= words_in_doc;
    }
''','''    VectorX z_bar = gamma - alpha;
    Scalar words_in_doc = z_bar.sum();
    if (words_in_doc != 0)
        z_bar /= words_in_doc;
    expected_z_bar_.col(docs_) = z_bar;
''')),
 r('r-prior-count',(D,'''    for (int i=0; i<y_.rows(); i++) {
        // documents without a label have a negative class
        if (y_[i] >= 0)
            priors_[y_[i]] ++;
    }
    if (priors_.sum() > 0)
        priors_.array() /= priors_.sum();''','''    int labelled = 0;
    for (int i=0; i<y_.rows(); i++) {
        if (y_[i] < 0)
            continue;
        priors_[y_[i]] += 1;
        labelled++;
    }
    if (labelled > 0)
        priors_ /= labelled;''')),
 r('r-gamma-loop',(EU,'    gamma = alpha;\n    math_utils::sum_cols_scaled(phi, X, gamma);','    gamma = alpha;\n    for (int n=0; n<X.rows(); n++) {\n        if (X[n] != 0)\n            gamma += X[n] * phi.col(n);\n    }')),
 r('r-softmax',(EU,'    softmax_eta_z = softmax_eta_z / softmax_eta_z.sum();','    softmax_eta_z /= softmax_eta_z.sum();')),
 r('r-predict-idx',(L,'        scores.col(d).maxCoeff( &predictions[d] );','        int best;\n        scores.col(d).maxCoeff(&best);\n        predictions[d] = best;')),
 r('r-digamma',(U,'    for (; x < 7; ++x) {\n        result -= 1/x;\n    }','    while (x < 7) {\n        result -= 1/x;\n        x += 1;\n    }')),
 r('r-notify-all',(L,'queue_out_cv_.notify_one()','queue_out_cv_.notify_all()')),
]
