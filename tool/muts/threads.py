L='src/ldaplusplus/LDA.cpp'; H='include/ldaplusplus/LDA.hpp'; U='src/ldaplusplus/em/UnsupervisedEStep.cpp'
FILL="""    for (size_t i=0; i<corpus->size(); i++) {
        queue_in_.emplace_back(corpus, i);
    }
"""
DRAIN="""    for (size_t i=0; i<corpus->size(); i++) {
        std::shared_ptr<parameters::Parameters> variational_parameters;"""
WORK="""            std::lock_guard<std::mutex> lock(queue_in_mutex_);
            if (queue_in_.empty())
                break;
            std::tie(corpus, index) = queue_in_.front();
            queue_in_.pop_front();
"""
ALL=['C02','C03','C04','C06']
MUTS=[
# bugs
('fill-from-1',['C02'],1,[(L,"for (size_t i=0; i<corpus->size(); i++) {\n        queue_in_","for (size_t i=1; i<corpus->size(); i++) {\n        queue_in_")]),
('drain-i',['C02'],1,[(L,"corpus->at(index),\n            variational_parameters","corpus->at(i),\n            variational_parameters")]),
('transform-col-i',['C02'],1,[(L,"gammas.col(index)","gammas.col(i)")]),
('worker-pop-back',['C02'],1,[(L,"queue_in_.pop_front();","queue_in_.pop_back();")]),
('worker-no-pop',['C02'],1,[(L,"            queue_in_.pop_front();\n","")]),
('out-no-pop',['C02'],1,[(L,"    queue_out_.pop_front();\n","")]),
('out-back',['C02'],1,[(L,"auto f = queue_out_.front();","auto f = queue_out_.back();")]),
('skip-empty-doc',['C02'],1,[(L,"""        // do said job
""","""        if (corpus->at(index)->get_words().sum() == 0) continue;
""")]),
('drain-skip',['C02'],1,[(L,"""        // perform the online part of m step
""","""        if (i % 100 == 99) continue;
""")]),
('drain-short',['C02'],1,[(L,DRAIN,DRAIN.replace("i<corpus->size()","i+1<corpus->size()"))]),
('worker-index-hoist',['C02'],1,[(L,"queue_out_.emplace_back(vp, index);","queue_out_.emplace_back(vp, queue_out_.size());")]),
('join-first',['C03'],1,[(L,"""    for (auto & t : workers_) {
        if (t.joinable())
            t.join();
    }
""","""    if (workers_[0].joinable()) workers_[0].join();
""")]),
('detach',['C03'],1,[(L,"            t.join();","            t.detach();")]),
('no-guard',['C03'],1,[(L,"    WorkerPoolGuard guard(*this);\n","")]),
('join-skip-last',['C03'],1,[(L,"""    for (auto & t : workers_) {
        if (t.joinable())
            t.join();
    }
""","""    for (size_t i=0; i+1<workers_.size(); i++) {
        if (workers_[i].joinable())
            workers_[i].join();
    }
""")]),
('wait-nopred',['C04'],1,[(L,"queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });","if (queue_out_.empty()) queue_out_cv_.wait(lock);")]),
('wait-outside',['C04'],1,[(L,"            std::lock_guard<std::mutex> lock(queue_out_mutex_);\n            queue_out_.emp","            std::lock_guard<std::mutex> lock(queue_in_mutex_);\n            queue_out_.emp")]),
('no-notify',['C04'],1,[(L,"        queue_out_cv_.notify_one();\n","")]),
('notify-if-one',['C04'],0,[(L,"            queue_out_.emplace_back(vp, index);\n        }\n        // talk about those results\n        queue_out_cv_.notify_one();","            queue_out_.emplace_back(vp, index);\n            queue_out_cv_.notify_one();\n        }\n")]),
('notify-cond',['C04'],1,[(L,"        queue_out_cv_.notify_one();\n","        if (index % 2) queue_out_cv_.notify_one();\n")]),
('notify-before',['C04'],1,[(L,"""            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }
        // talk about those results
        queue_out_cv_.notify_one();""","""            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_cv_.notify_one();
        }
        {
            std::lock_guard<std::mutex> lock(queue_out_mutex_);
            queue_out_.emplace_back(vp, index);
        }
""")]),
('workers-zero',['C04'],1,[(L,"workers_(std::max(workers, static_cast<size_t>(1)))","workers_(workers)")]),
('epoch-before-join',['C06'],1,[(L,"""    destroy_worker_pool();

    // Perform any corpuswise action related to e step
    e_step_->e_step();
""","""    e_step_->e_step();

    destroy_worker_pool();
""")]),
('m-step-twice',['C06'],1,[(L,"""    // inform the world that the epoch is over
""","""    m_step_->m_step(model_parameters_);
""")]),
('m-step-in-loop',['C06'],1,[(L,"""            variational_parameters,
            model_parameters_  // output
        );
""","""            variational_parameters,
            model_parameters_  // output
        );
        if (i + 1 == corpus->size()) m_step_->m_step(model_parameters_);
""")]),
('epoch-before-m',['C06'],1,[(L,"""    // perform the batch part of m step
    m_step_->m_step(
        model_parameters_  // output
    );
""",""),(L,"""dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);
""","""dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);
    m_step_->m_step(model_parameters_);
""")]),
('no-event-else',['C06'],1,[(U,"    } else {","    } else if (num_words > 0) {")]),
('early-return-empty',['C06'],1,[(U,"    // to check for convergence\n","    if (num_words == 0) return std::make_shared<parameters::VariationalParameters<Scalar> >(gamma, phi);\n")]),
('transform-epoch',['C06'],1,[(L,"    return gammas;\n}","    get_event_dispatcher()->template dispatch<events::EpochProgressEvent<Scalar> >(model_parameters_);\n    return gammas;\n}")]),
# refactorings
('r-while-fill',ALL,0,[(L,FILL,"""    const size_t n_docs = corpus->size();
    size_t next = 0;
    while (next < n_docs) {
        queue_in_.push_back(std::make_tuple(corpus, next));
        ++next;
    }
""")]),
('r-down-fill',ALL,0,[(L,FILL,"""    for (size_t i=corpus->size(); i>0; i--) {
        queue_in_.emplace_front(corpus, i-1);
    }
""")]),
('r-helper',ALL,0,[(L,FILL,"    queue_documents(corpus);\n"),(H,"        void create_worker_pool();","        void queue_documents(std::shared_ptr<corpus::Corpus> corpus) {\n            for (size_t i=0; i<corpus->size(); i++) {\n                queue_in_.emplace_back(corpus, i);\n            }\n        }\n\n        void create_worker_pool();")]),
('r-wait-loop',ALL,0,[(L,"    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });","    while (queue_out_.empty()) {\n        queue_out_cv_.wait(lock);\n    }")]),
('r-worker-helper',ALL,0,[(L,WORK,"""            std::unique_lock<std::mutex> lock(queue_in_mutex_);
            if (queue_in_.size() == 0)
                return;
            auto job = queue_in_.front();
            queue_in_.pop_front();
            corpus = std::get<0>(job);
            index = std::get<1>(job);
            lock.unlock();
""")]),
('r-spawn-idx',ALL,0,[(L,"""    for (auto & t : workers_) {
        t = std::thread(
            std::bind(&LDA<Scalar>::doc_e_step_worker, this)
        );
    }""","""    for (size_t w=0; w<workers_.size(); w++) {
        workers_[w] = std::thread([this]() { doc_e_step_worker(); });
    }""")]),
('r-spawn-pmf',ALL,0,[(L,"""        t = std::thread(
            std::bind(&LDA<Scalar>::doc_e_step_worker, this)
        );""","""        t = std::thread(&LDA<Scalar>::doc_e_step_worker, this);""")]),
('r-join-it',ALL,0,[(L,"""    for (auto & t : workers_) {
        if (t.joinable())
            t.join();
    }
""","""    for (auto it = workers_.begin(); it != workers_.end(); ++it) {
        if (!it->joinable()) {
            continue;
        }
        it->join();
    }
""")]),
('r-drain-get',ALL,0,[(L,"        std::tie(variational_parameters, index) = extract_vp_from_queue();","        auto result = extract_vp_from_queue();\n        variational_parameters = std::get<0>(result);\n        index = std::get<1>(result);")]),
('r-drain-while',ALL,0,[(L,DRAIN,"    size_t remaining = corpus->size();\n    while (remaining-- > 0) {\n        std::shared_ptr<parameters::Parameters> variational_parameters;")]),
('r-event-split',ALL,0,[(U,"    if (emit_likelihood(this->get_prng())) {","    const bool emit = emit_likelihood(this->get_prng());\n    if (emit) {")]),
('r-notify-all',ALL,0,[(L,"notify_one","notify_all")]),
('r-doc-local',ALL,0,[(L,"""        m_step_->doc_m_step(
            corpus->at(index),
""","""        const auto document = corpus->at(index);
        m_step_->doc_m_step(
            document,
""")]),
('r-move-extract',ALL,0,[(L,"    auto f = queue_out_.front();\n    queue_out_.pop_front();\n\n    return f;","    std::tuple<std::shared_ptr<parameters::Parameters>, size_t> f(std::move(queue_out_.front()));\n    queue_out_.pop_front();\n    lock.unlock();\n    return f;")]),
('r-fit-while',ALL,0,[(L,"    for (size_t i=0; i<iterations_; i++) {\n        partial_fit(corpus);\n    }","    size_t i = 0;\n    while (i < iterations_) {\n        partial_fit(corpus);\n        i++;\n    }")]),
]
MUTS+=[
('atomic',['C02'],1,[(L,"            std::tie(corpus, index) = queue_in_.front();\n            queue_in_.pop_front();\n        }","            std::tie(corpus, index) = queue_in_.front();\n        }\n        {\n            std::lock_guard<std::mutex> lock(queue_in_mutex_);\n            queue_in_.pop_front();\n        }")]),
]
