L='src/ldaplusplus/LDA.cpp'; LH='include/ldaplusplus/LDA.hpp'; EV='src/ldaplusplus/events/Events.cpp'; EVH='include/ldaplusplus/events/Events.hpp'
D='src/ldaplusplus/Document.cpp'; DH='include/ldaplusplus/Document.hpp'; EM='src/ldaplusplus/em/'; EMH='include/ldaplusplus/em/'
GD='include/ldaplusplus/optimization/GradientDescent.hpp'; LB='src/ldaplusplus/LDABuilder.cpp'; LBH='include/ldaplusplus/LDABuilder.hpp'
U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'; NP='include/ldaplusplus/NumpyFormat.hpp'; A='src/applications/'; IO=A+'lda_io.cpp'
ML='src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp'; ME=EM+'MultinomialSupervisedEStep.cpp'; FO=EM+'FastOnlineSupervisedMStep.cpp'
def b(n,c,*e): return (n,[c] if isinstance(c,str) else c,1,list(e))
def r(n,*e): return (n,['ALL'],0,list(e))
MUTS=[
 b('c12-swap-cont','C12',(IO,'    model >> ni; model_parameters_X','')) if False else
 b('c12-rowmajor','C12',(IO,'numpy_format::NumpyOutput<double>(model_parameters->eta)','numpy_format::NumpyOutput<double>(Eigen::MatrixXd(model_parameters->eta.transpose()))')),
 b('c12-noeta','C12',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n','    if (model_parameters->eta.size() > 0)\n        model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n')),
 b('c12-float','C12',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n','    Eigen::MatrixXd eta = model_parameters->eta.cast<float>().cast<double>();\n    model << numpy_format::NumpyOutput<double>(eta);\n')),
 b('c12-labels-rewind','C12',(IO,'    // and the labels\n    data >> ni;\n','    // and the labels\n    data.seekg(0);\n    data >> ni;\n')),
 b('c13-len','C13',(NP,'uint16_t header_len = header.tellp();','uint8_t header_len8 = header.tellp();\n                uint16_t header_len = header_len8;')),
 b('c13-pad','C13',(NP,'header.tellp()) + 11) % 16','header.tellp()) + 10) % 16')),
 b('c13-cols','C13',(NP,'for (size_t i=1; i<shape_.size(); i++) {\n                    cols *= shape_[i];','for (size_t i=1; i<shape_.size() && i<2; i++) {\n                    cols *= shape_[i];')),
 b('c13-fortran','C13',(NP,'(fortran_) ? i*rows + j : j*cols + i','(fortran_) ? i*rows + j : i*rows + j')),
 b('c14-magic','C14',(NP,'std::string(MAGIC_AND_VERSION, 6) !=','std::string(MAGIC_AND_VERSION + 1, 5) !=')) if False else
 b('c14-version','C14',(NP,'if (MAGIC_AND_VERSION[6] > 1)','if (MAGIC_AND_VERSION[6] > 2)')),
 b('c14-close','C14',(IO,'    model.close();\n    if (!model) {','    if (!model) {')),
 b('c14-badhdr','C14',(NP,'is.read(&buffer[0], header_len);\n                if (!is) {','is.read(&buffer[0], header_len);\n                if (is.gcount() == 0) {')),
 b('c10-online-batch','C10',(A+'fslda.cpp','        args["--batch_size"].asLong(),','        std::min(args["--batch_size"].asLong(), 1024L),')),
 b('c10-stof-int','C10',(A+'fslda.cpp','std::stof(args["--supervised_weight"].asString())','std::stoi(args["--supervised_weight"].asString())')),
 b('c10-workers','C10',(A+'fslda.cpp','    builder.set_workers(args["--workers"].asLong());\n\n    // Add the parameters regarding the Exp','    if (args["--workers"].asLong() < 8)\n        builder.set_workers(args["--workers"].asLong());\n\n    // Add the parameters regarding the Exp')),
 b('c10-cont-eta','C10',(A+'fslda.cpp','            initialize_topics_from_model(model).\n            initialize_eta_from_model(model);','            initialize_topics_from_model(model).\n            initialize_eta_zeros(y.maxCoeff() + 1);')),
 b('c10-order','C10',(A+'fslda.cpp','    if (args["--continue"]) {','    if (args["--continue"] && !args["--initialize_random"].asBool()) {')) if False else
 b('c16-weights','C16',(A+'utils.cpp','PLACE','')) if False else
 b('c09-seeded-n','C09',(LB,'        for (size_t r=0; r<N; r++) {','        for (size_t r=0; r<topics; r++) {')),
 b('c09-weights','C09',(LB,'        weights[i] = class_weights[i];','        weights[i] = class_weights[i] / class_weights.size();')),
 b('c09-eta-weight','C09',(ME,'            eta_weight_,\n','            mu_,\n')),
 b('c09-corpus','C09',(LB,'        std::make_shared<corpus::EigenCorpus>(X),\n        topics,\n        N,\n        random_state\n','        std::make_shared<corpus::EigenCorpus>(X),\n        topics,\n        N\n')),
 b('c17-seeddoc','C17',(LB,'    std::mt19937 rng(random_state);\n    std::uniform_int','    static std::mt19937 rng(random_state);\n    std::uniform_int')),
 b('c17-random','C17',(LB,'            model_parameters_->beta(k, w) = dis(rng);','            model_parameters_->beta(k, w) = dis(rng) + 1e-6 * (std::rand() % 10);')),
 b('c24-seeded','C24',(LB,'        topics,\n        (corpus->at(0)->get_words()).rows(),','        topics,\n        corpus->size(),')),
 b('c24-eta','C24',(LB,'PLACE2','')) if False else
 b('c24-t','C24',(ML,'VectorX t(eta.cols());\n\n    // \\eta','VectorX t(eta.rows());\n\n    // \\eta')),
 b('c24-classes','C24',(ML,'        t = eta.transpose() * X_.col(d);\n        likelihood += Cy_[y_[d]] * t[y_[d]];','        t = eta.transpose() * X_.col(d);\n        likelihood += Cy_[d] * t[y_[d]];')),
 b('c18-weights','C18',(ML,'    Cy_ = y_.rows() / (Cy_.array() * C).array();','    Cy_ = y_.rows() / (Cy_.array() * C).array();\n    Cy_ /= Cy_.minCoeff() - Cy_.minCoeff();')),
 b('c18-corpus0','C18',(ME,'VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);','VectorX X_ratio = X.cast<Scalar>() / num_words;')),
 b('c26-seeded','C26',(LB,'        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n','        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / (N + 1);\n')),
 b('c26-seeded-in','C26',(LB,'        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n    }\n','    }\n    model_parameters_->beta /= model_parameters_->beta.sum();\n')),
 b('c26-random','C26',(LB,'    math_utils::normalize_rows(model_parameters_->beta);\n\n    return *this;','    math_utils::normalize_rows(model_parameters_->beta);\n    model_parameters_->beta.array() += 1e-3;\n\n    return *this;')),
 b('c08-mb-idx','C08',(FO,'    y_(docs_seen_so_far_) = y;\n','    y_(docs_seen_so_far_ > 0 ? docs_seen_so_far_ - 1 : 0) = y;\n')),
 b('c08-stale-y','C08',(FO,'    y_(docs_seen_so_far_) = y;\n','    if (X.sum() > 0)\n        y_(docs_seen_so_far_) = y;\n')),
 b('c21-grad','C21',(GD,'                problem.gradient(x0, grad);\n','                if (iterations < 2 || iterations % 2)\n                    problem.gradient(x0, grad);\n')),
 b('c20-gd','C20',(GD,'iterations++)) {\n                problem','iterations)) {\n                iterations += value < 0;\n                problem')),
 b('c22-corpus','C22',(L,'    return std::make_shared<corpus::EigenClassificationCorpus>(X, y);','    if (y.rows() > 0 && y.maxCoeff() < 0)\n        return std::make_shared<corpus::EigenCorpus>(X);\n    return std::make_shared<corpus::EigenClassificationCorpus>(X, y);')),
 b('c25-transform','C25',(A+'slda.cpp','        doc_topic_distribution = lda.transform(X);\n\n        numpy_format::save(\n            args["OUTPUT"].asString(),\n            doc_topic_distribution','        doc_topic_distribution = lda.transform(X);\n\n        numpy_format::save(\n            args["OUTPUT"].asString(),\n            model->beta')),
 b('c25-model-save','C25',(A+'slda.cpp','        io::save_lda(\n            args["MODEL"].asString(),\n            lda.model_parameters()\n        );','        if (args["--snapshot_every"].asLong() <= 0)\n            io::save_lda(\n                args["MODEL"].asString(),\n                lda.model_parameters()\n            );')),
 b('c25-fit-once','C25',(A+'slda.cpp','        lda.fit(X, y);\n','        auto initial = std::make_shared<parameters::SupervisedModelParameters<double> >(*std::static_pointer_cast<parameters::SupervisedModelParameters<double> >(lda.model_parameters()));\n        lda.fit(X, y);\n'),(A+'slda.cpp','            args["MODEL"].asString(),\n            lda.model_parameters()\n','            args["MODEL"].asString(),\n            initial\n')),
 b('c07-rowsum','C07',(ME,'    int num_topics = beta.rows();\n','    int num_topics = beta.rows();\n    std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta.array() += 0;\n')),
 b('c23-norm','C23',(ML,'    auto norm = L_ * eta.squaredNorm() / 2;','    int norm = L_ * eta.squaredNorm() / 2;')),
 b('c23-float-likelihood','C23',(ML,'    Scalar likelihood = 0;','    float likelihood = 0;')),
 b('c11-topics','C11',(LBH,'            if (model_parameters_->beta.rows() == 0) {','            if (model_parameters_->beta.rows() == 0 && model_parameters_->eta.rows() == 0) {')),
 b('c05-thread','C05',(EV,'    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafe','    if (std::this_thread::get_id() == thread_id_ || events_.size() > 4096) {\n        ThreadSafe')),
 b('c05-held','C05',(EV,'    {\n        std::lock_guard<std::mutex> l(listeners_mutex_);\n        listeners = listeners_;\n    }\n','    std::lock_guard<std::mutex> keep(listeners_mutex_);\n    listeners = listeners_;\n')),
 b('c01-copy','C01',(EV,'    {\n        std::lock_guard<std::mutex> l(listeners_mutex_);\n        listeners = listeners_;\n    }\n','    listeners = listeners_;\n')),
 b('c01-out','C01',(L,'    std::unique_lock<std::mutex> lock(queue_out_mutex_);\n    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });\n\n    auto f = queue_out_.front();','    std::unique_lock<std::mutex> lock(queue_out_mutex_);\n    queue_out_cv_.wait(lock, [this](){ return !queue_out_.empty(); });\n    lock.unlock();\n\n    auto f = queue_out_.front();')),
 b('c19-neg','C19',(U,'PLACE3','')) if False else
 b('c15-decor','C15',(D,'        y_[i]\n    );','        y_[index]\n    );')),
 b('c02-skip-empty','C02',(L,'    for (size_t i=0; i<corpus->size(); i++) {\n        queue_in_.emplace_back(corpus, i);\n    }\n\n    // create the thread pool\n    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_m_step\n    for (size_t i=0; i<corpus->size(); i++) {\n        std::shared_ptr<parameters::Parameters> variational','    size_t queued = 0;\n    for (size_t i=0; i<corpus->size(); i++) {\n        if (corpus->at(i)->get_words().sum() == 0)\n            continue;\n        queue_in_.emplace_back(corpus, i);\n        queued++;\n    }\n\n    // create the thread pool\n    WorkerPoolGuard guard(*this);\n    create_worker_pool();\n\n    // Extract variational parameters and calculate the doc_m_step\n    for (size_t i=0; i<queued; i++) {\n        std::shared_ptr<parameters::Parameters> variational')),
 # refactorings
 r('r-seed-acc',(LB,'        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n','        model_parameters_->beta.row(k) /= model_parameters_->beta.row(k).sum();\n')),
 r('r-seed-after',(LB,'        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n    }\n','    }\n    math_utils::normalize_rows(model_parameters_->beta);\n')),
 r('r-weights-map',(LB,'    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights(class_weights.size());\n    for (size_t i=0; i<class_weights.size(); i++) {\n        weights[i] = class_weights[i];\n    }','    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights(class_weights.size());\n    std::copy(class_weights.begin(), class_weights.end(), weights.data());')),
 r('r-rand-nullary',(LB,'            model_parameters_->beta(k, w) = dis(rng);','            Scalar draw = dis(rng);\n            model_parameters_->beta(k, w) = draw;')),
 r('r-mlr-local',(ML,'    for (int d=0; d<y_.rows(); d++) {\n        t = eta.transpose() * X_.col(d);\n        likelihood += Cy_[y_[d]] * t[y_[d]];\n        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());','    const int documents = y_.rows();\n    for (int d=0; d<documents; ++d) {\n        const int y = y_[d];\n        const Scalar weight = Cy_[y];\n        t.noalias() = eta.transpose() * X_.col(d);\n        likelihood += weight * (t[y] - std::log(t.array().exp().sum()));')),
 r('r-mlr-grad',(ML,'        t = (eta.transpose() * X_.col(d)).array().exp();\n        grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();','        t = (eta.transpose() * X_.col(d)).array().exp();\n        t /= t.sum();\n        grad += Cy_[y_[d]] * X_.col(d) * t.transpose();')),
 r('r-me-model',(ME,'    const VectorX &alpha = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->alpha;\n    const MatrixX &beta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->beta;\n    const MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;','    const auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters);\n    const VectorX &alpha = model->alpha;\n    const MatrixX &beta = model->beta;\n    const MatrixX &eta = model->eta;')),
 r('r-me-do',(ME,'    for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {\n        // check for early stopping\n        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            break;\n        }\n','    size_t left = e_step_iterations_;\n    while (left-- > 0) {\n        if (this->converged(gamma_old, gamma, e_step_tolerance_))\n            break;\n')),
 r('r-me-corpus',(ME,'    int corpus_size = doc->get_corpus()->size();\n    Scalar prior_y = doc->get_corpus<corpus::ClassificationCorpus>()->get_prior(y);','    auto corpus = doc->get_corpus<corpus::ClassificationCorpus>();\n    int corpus_size = corpus->size();\n    Scalar prior_y = corpus->get_prior(y);')),
 r('r-gd-cond',(GD,'            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {\n                problem.gradient(x0, grad);\n                value = line_search_->search(problem, x0, grad, grad);\n            }','            bool more = progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++);\n            while (more) {\n                problem.gradient(x0, grad);\n                value = line_search_->search(problem, x0, grad, grad);\n                more = progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++);\n            }')),
 r('r-np-shape',(NP,'                size_t N = 1;\n                for (auto d : data.shape()) {\n                    N *= d;\n                }\n                os.write(data.data(), N*sizeof(Scalar));','                size_t bytes = sizeof(Scalar);\n                for (size_t i=0; i<data.shape().size(); i++) {\n                    bytes *= data.shape()[i];\n                }\n                os.write(data.data(), bytes);')),
 r('r-np-hdr',(NP,'                for (auto d : data.shape()) {\n                    header << d << ", ";\n                }\n                header << ")}";','                const std::vector<size_t> &shape = data.shape();\n                for (size_t i=0; i<shape.size(); ++i)\n                    header << shape[i] << ", ";\n                header << ")" << "}";')),
 r('r-np-copy',(NP,'                for (int i=0; i<cols; i++) {\n                    for (int j=0; j<rows; j++) {\n                        int idx = (fortran_) ? i*rows + j : j*cols + i;\n\n                        matrix(j, i) = data_[idx];\n                    }\n                }','                for (int j=0; j<rows; j++) {\n                    for (int i=0; i<cols; i++) {\n                        if (fortran_)\n                            matrix(j, i) = data_[i*rows + j];\n                        else\n                            matrix(j, i) = data_[j*cols + i];\n                    }\n                }')),
 r('r-fslda-chain',(A+'fslda.cpp','    builder.set_iterations(args["--iterations"].asLong());\n    builder.set_workers(args["--workers"].asLong());\n\n    // Add the parameters regarding the Exp','    const auto workers = args["--workers"].asLong();\n    const auto iterations = args["--iterations"].asLong();\n    builder.set_workers(workers).set_iterations(iterations);\n\n    // Add the parameters regarding the Exp')),
 r('r-fslda-classes',(A+'fslda.cpp','    // Initialize the model parameters\n    if (args["--continue"]) {','    const int classes = y.maxCoeff() + 1;\n\n    // Initialize the model parameters\n    if (args["--continue"]) {'),(A+'fslda.cpp','initialize_eta_zeros(y.maxCoeff() + 1)','initialize_eta_zeros(classes)')),
 r('r-lda-worker-opt',(L,'    std::shared_ptr<corpus::Corpus> corpus;\n    size_t index;\n\n    while (true) {\n        // extract a job\n        {','    for (;;) {\n        std::shared_ptr<corpus::Corpus> corpus;\n        size_t index = 0;\n        // extract a job\n        {')),
 r('r-lda-dec',(L,'    MatrixX expected_z_bar = X.colwise() - model->alpha;\n    math_utils::normalize_cols(expected_z_bar);\n','    const VectorX &alpha = model->alpha;\n    MatrixX expected_z_bar(X);\n    expected_z_bar.colwise() -= alpha;\n    math_utils::normalize_cols(expected_z_bar);\n')),
 r('r-lda-tp',(L,'    Eigen::VectorXi predictions = predict(decision_function(gammas));\n\n    return std::make_tuple(gammas, predictions);','    const MatrixX scores = decision_function(gammas);\n\n    return std::make_tuple(gammas, predict(scores));')),
 r('r-ev-iter',(EV,'    for (auto ev : events) {\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }','    for (auto e = events.begin(); e != events.end(); ++e) {\n        for (const auto & l : listeners) {\n            l->on_event(*e);\n        }\n    }')),
 r('r-ev-swap',(EV,'        events = events_;\n        events_.clear();','        std::swap(events, events_);')),
 r('r-save-scope',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n','    model << numpy_format::NumpyOutput<double>(model_parameters->alpha)\n          << numpy_format::NumpyOutput<double>(model_parameters->beta)\n          << numpy_format::NumpyOutput<double>(model_parameters->eta);\n')),
]
