LB='src/ldaplusplus/LDABuilder.cpp'; LBH='include/ldaplusplus/LDABuilder.hpp'; NF='include/ldaplusplus/NumpyFormat.hpp'; IO='src/applications/lda_io.cpp'
A='src/applications/'; GD='include/ldaplusplus/optimization/GradientDescent.hpp'; O='src/ldaplusplus/optimization/'; EU='src/ldaplusplus/e_step_utils.cpp'; U='include/ldaplusplus/utils.hpp'; EM='src/ldaplusplus/em/'
def b(n,c,*e): return (n,c if isinstance(c,list) else [c],1,list(e))
def r(n,*e): return (n,['ALL'],0,list(e))
MUTS=[
 # builder
 b('c09-workers-clamped','C09',(LB,'    workers_ = workers;','    workers_ = std::min<size_t>(workers, std::thread::hardware_concurrency());')),
 b('c09-semi-forget','C09',(LB,'    if (unsupervised_step == nullptr) {\n        unsupervised_step','    if (unsupervised_step == nullptr || supervised_step == unsupervised_step) {\n        unsupervised_step')) if False else
 b('c09-semi-swap','C09',(LB,'SemiSupervisedEStep<Scalar> >(\n        supervised_step,\n        unsupervised_step','SemiSupervisedEStep<Scalar> >(\n        unsupervised_step,\n        supervised_step')),
 b('c09-mult-swap','C09',(LB,'        mu,\n        eta_weight,\n        compute_likelihood','        eta_weight,\n        mu,\n        compute_likelihood')),
 b('c09-weights-off','C09',(LB,'        weights[i] = class_weights[i];','        weights[i] = class_weights[class_weights.size() - 1 - i];')),
 b('c09-seeded-N','C09',(LB,'        for (size_t r=0; r<N; r++) {','        for (size_t r=1; r<N; r++) {')),
 b('c09-drop-N','C09',(LB,'        std::make_shared<corpus::EigenCorpus>(X),\n        topics,\n        N,','        std::make_shared<corpus::EigenCorpus>(X),\n        topics,\n        topics,')),
 b('c11-eta-topics','C11',(LB,'    size_t topics = model_parameters_->beta.rows();\n    if (topics <= 0) {\n        throw std::runtime_error("You need to call initialize_topics_*() "\n                                 "before initializing eta");\n    }\n\n    // Zero the supervised parameters\n    model_parameters_->eta = MatrixX::Zero(','    size_t topics = model_parameters_->alpha.rows();\n    if (topics < 0) {\n        throw std::runtime_error("You need to call initialize_topics_*() "\n                                 "before initializing eta");\n    }\n\n    // Zero the supervised parameters\n    model_parameters_->eta = MatrixX::Zero(')),
 b('c17-per-topic-rng','C17',(LB,'    std::mt19937 rng(random_state);\n    std::uniform_int_distribution<> document(0, corpus->size()-1);\n\n    // Initialize _beta\n    for (size_t k=0; k<topics; k++) {','    std::uniform_int_distribution<> document(0, corpus->size()-1);\n\n    // Initialize _beta\n    for (size_t k=0; k<topics; k++) {\n        std::mt19937 rng(random_state);')),
 b('c17-rand','C17',(LB,'beta(k, w) = dis(rng);','beta(k, w) = (1. + rand()) / RAND_MAX;')),
 b('c26-global-sum','C26',(LB,'model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();','model_parameters_->beta.row(k) / model_parameters_->beta.sum();')),
 b('c26-cols','C26',(LB,'math_utils::normalize_rows(model_parameters_->beta);','math_utils::normalize_cols(model_parameters_->beta);')),
 b('c26-norm-before','C26',(LB,'    // Normalize beta\n    math_utils::normalize_rows(model_parameters_->beta);\n\n    return','    return'),(LB,'            model_parameters_->beta(k, w) = dis(rng);\n        }','            model_parameters_->beta(k, w) = dis(rng);\n        }\n        if (k + 1 < topics)\n            model_parameters_->beta.row(k) /= model_parameters_->beta.row(k).sum();')),
 b('c26-eta-uniform','C26',(LB,'        1.0 / num_classes','        1.0 / topics')),
 b('c24-eta-orient','C24',(LB,'MatrixX::Zero(\n        topics,\n        num_classes\n','MatrixX::Zero(\n        num_classes,\n        topics\n')),
 b('c15-c24-words','C24',(LB,'(corpus->at(0)->get_words()).rows(),','corpus->size(),')),
 # numpy
 b('c13-dtype-u4','C13',(NF,'dtype_for_scalar<uint32_t>() { return "u4"; }','dtype_for_scalar<uint32_t>() { return "i4"; }')),
 b('c13-pad','C13',(NF,'+ 11) % 16)','+ 10) % 16)')),
 b('c13-swap-half','C13',(NF,'j<sizeof(Scalar)/2; j++','j<sizeof(Scalar)/2 && j<2; j++')),
 b('c13-swap-all','C13',(NF,'j<sizeof(Scalar)/2; j++','j<sizeof(Scalar); j++')),
 b('c13-fortran-idx','C13',(NF,'(fortran_) ? i*rows + j : j*cols + i','(fortran_) ? i*cols + j : j*cols + i')),
 b('c13-fortran-pos','C13',(NF,"data.fortran_ = header[34] == 'T';","data.fortran_ = header.find('T') != std::string::npos;")) if False else
 b('c13-fortran-pos','C13',(NF,"data.fortran_ = header[34] == 'T';","data.fortran_ = header[34] != 'T';")),
 b('c13-swap-cond','C13',(NF,'    if (endianness != is_big_endian()) {','    if (endianness && sizeof(Scalar) > 4) {')),
 b('c13-vector-1d','C13',(NF,'for (auto d : data.shape()) {\n                    header << d << ", ";\n                }','for (auto d : data.shape()) {\n                    if (d > 1 || data.shape().size() == 1)\n                        header << d << ", ";\n                }')),
 b('c13-transposed','C13',(NF,'static_cast<size_t>(matrix.rows()),\n                        static_cast<size_t>(matrix.cols())','static_cast<size_t>(matrix.cols()),\n                        static_cast<size_t>(matrix.rows())')),
 b('c13-rowmajor','C13',(NF,'! Eigen::Matrix<Scalar, Rows, Cols, Options>::IsRowMajor','Eigen::Matrix<Scalar, Rows, Cols, Options>::IsRowMajor || Cols == 1')),
 b('c13-hlen8','C13',(NF,'    uint16_t header_len = header.tellp();','    uint8_t header_len = header.tellp();')),
 b('c13-cols-last','C13',(NF,'                    cols *= shape_[i];','                    cols = shape_[i];')),
 b('c13-typecheck-kind','C13',(NF,'if (dtype.substr(1) != dtype_for_scalar<Scalar>()) {','if (dtype.substr(1, 1) != std::string(dtype_for_scalar<Scalar>(), 1)) {')),
 b('c14-magic','C14',(NF,'if (!is || std::string(MAGIC_AND_VERSION, 6)','if (std::string(MAGIC_AND_VERSION, 6)')),
 b('c14-read-some','C14',(NF,'                if (!is) {\n                    throw std::runtime_error("The array data is truncated");','                if (is.gcount() == 0) {\n                    throw std::runtime_error("The array data is truncated");')),
 b('c14-eof','C14',(NF,'                if (!is) {\n                    throw std::runtime_error("The array data is truncated");','                if (is.bad()) {\n                    throw std::runtime_error("The array data is truncated");')),
 b('c14-shape','C14',(NF,'                if (data.shape_.empty()) {\n                    throw std::runtime_error("The array shape is malformed");\n                }\n','')),
 b('c14-header','C14',(NF,'                if (header.size() < 35) {\n                    throw std::runtime_error("The array header is malformed");\n                }\n','')),
 b('c14-close','C14',(NF,'        out_stream.close();\n        if (!out_stream) {','        if (!out_stream) {')),
 b('c14-save-open','C14',(IO,'    model.close();\n    if (!model) {','    model.close();\n    if (!model.is_open()) {')) ,
 b('c14-save-before','C14',(IO,'    model.close();\n    if (!model) {\n        throw std::runtime_error("Cannot write the model to " + model_path);\n    }\n','    if (!model) {\n        throw std::runtime_error("Cannot write the model to " + model_path);\n    }\n    model.close();\n')),
 b('c14-catch','C14',(NF,'} catch (const std::invalid_argument&) {','} catch (const std::exception&) {')),
 b('c14-version','C14',(NF,'if (MAGIC_AND_VERSION[6] > 1) {','if (MAGIC_AND_VERSION[6] > 3) {')),
 b('c12-order','C12',(IO,'    model >> ni; model_parameters_'.rstrip('_')+'->beta = ni;\n    model >> ni; model_parameters->eta = ni;','    model >> ni; model_parameters->eta = ni;\n    model >> ni; model_parameters->beta = ni;')),
 b('c12-save-order','C12',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);','    model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);')),
 b('c12-skip-eta','C12',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->eta);','    if (model_parameters->eta.sum() != 0)\n        model << numpy_format::NumpyOutput<double>(model_parameters->eta);')),
 b('c12-append','C12',(IO,'        model_path,\n        std::ios::out | std::ios::binary','        model_path,\n        std::ios::out | std::ios::binary | std::ios::app')),
 b('c12-late-copy','C12',(IO,'    data >> ni;\n    X = ni;\n\n    // and the labels\n    data >> ni;\n    y = ni;','    data >> ni;\n\n    // and the labels\n    numpy_format::NumpyInput<int> labels;\n    data >> labels;\n    X = labels;\n    y = ni;')),
 b('c12-reopen','C12',(IO,'    // and the labels\n    data >> ni;','    // and the labels\n    std::fstream labels(data_path, std::ios::in | std::ios::binary);\n    labels >> ni;')),
 b('c12-seek','C12',(IO,'    // and the labels\n    data >> ni;','    // and the labels\n    if (X.cols() == 1)\n        data.seekg(0);\n    data >> ni;')),
 r('r-c12-text',(IO,'        model_path,\n        std::ios::out | std::ios::binary','        model_path,\n        std::ios::out')),
 b('c12-keep-shape','C13',(NF,'                data.data_.clear();\n                data.shape_.clear();','                data.data_.clear();')),
 # apps
 b('c10-int-tol','C10',(A+'lda.cpp','        args["--e_step_iterations"].asLong(),\n        std::stof(args["--e_step_tolerance"].asString()),\n        std::stof(args["--compute','        args["--e_step_iterations"].asLong(),\n        std::stoi(args["--e_step_tolerance"].asString()),\n        std::stof(args["--compute')),
 b('c10-quiet','C10',(A+'slda.cpp','        if (args["--snapshot_every"].asLong() > 0) {','        if (args["--snapshot_every"].asLong() > 0 && !args["--quiet"].asBool()) {')),
 b('c10-snap-one','C10',(A+'lda.cpp','        if (args["--snapshot_every"].asLong() > 0) {','        if (args["--snapshot_every"].asLong() > 1) {')),
 b('c10-workers-transform','C10',(A+'fslda.cpp','    builder.set_workers(args["--workers"].asLong());\n\n    builder.set_classic','    builder.set_classic')),
 b('c10-transform-iterations','C10',(A+'slda.cpp','    builder.set_classic_e_step(\n        args["--e_step_iterations"].asLong(),','    builder.set_classic_e_step(\n        2 * args["--e_step_iterations"].asLong(),')),
 b('c10-seed','C10',(A+'lda.cpp','            30,\n            args["--random_state"].asLong()','            30,\n            args["--topics"].asLong()')),
 b('c10-continue','C10',(A+'fslda.cpp','io::load_lda(args["--continue_from_unsupervised"].asString())','io::load_lda(args["--continue"].asString())')),
 b('c10-continue-eta','C10',(A+'slda.cpp','            initialize_topics_from_model(model).\n            initialize_eta_from_model(model);\n\n    } else if','            initialize_topics_from_model(model).\n            initialize_eta_zeros(y.maxCoeff() + 1);\n\n    } else if')),
 b('c10-usage','C10',(A+'lda.cpp','[--compute_likelihood=CL] [--initialize_seeded','[--likelihood=CL] [--initialize_seeded'),(A+'lda.cpp','        --compute_likelihood=CL The','        --likelihood=CL         The')),
 b('c25-early','C25',(A+'fslda.cpp','        // Fit LDA model according to the given training data and parameters\n        lda.fit(X, y);\n\n        //Save the trained model\n        io::save_lda(\n            args["MODEL"].asString(),\n            lda.model_parameters()\n        );\n    } else if','        auto trained = lda.model_parameters();\n        io::save_lda(\n            args["MODEL"].asString(),\n            trained\n        );\n        // Fit LDA model according to the given training data and parameters\n        lda.fit(X, y);\n    } else if')),
 b('c25-partial','C25',(A+'lda.cpp','        lda.fit(X);','        lda.partial_fit(std::make_shared<corpus::EigenCorpus>(X));')),
 b('c25-unlabelled','C25',(A+'slda.cpp','        lda.fit(X, y);','        lda.fit(X);')),
 b('c25-snap-num','C25',(A+'SnapshotEvery.cpp','    actual_path << seen_so_far_;','    actual_path << seen_so_far_ % 100;')),
 b('c25-snap-every','C25',(A+'SnapshotEvery.cpp','        seen_so_far_ ++;\n        if (seen_so_far_ % save_every_ == 0) {\n            snapshot(progress->model_parameters());\n        }','        if (seen_so_far_ % save_every_ == 0) {\n            snapshot(progress->model_parameters());\n        }\n        seen_so_far_ ++;')),
 b('c25-snap-once','C25',(A+'SnapshotEvery.cpp','        if (seen_so_far_ % save_every_ == 0) {','        if (seen_so_far_ == save_every_) {')),
 b('c25-out','C25',(A+'slda.cpp','        numpy_format::save(\n            args["OUTPUT"].asString(),','        numpy_format::save(\n            args["MODEL"].asString(),')),
 b('c25-transform-x','C25',(A+'fslda.cpp','        doc_topic_distribution = lda.transform(X);','        doc_topic_distribution = lda.transform(y);')),
 b('c25-snap-expect','C22',(A+'SnapshotEvery.cpp','    if (event->id() == "EpochProgressEvent") {','    if (event->id() == "ExpectationProgressEvent") {')),
 b('c22-else','C22',(A+'EpochProgress.cpp','    if (event->id() == "ExpectationProgressEvent") {','    if (event->id() != "EpochProgressEvent") {')),
 b('c22-float','C22',(A+'MaximizationProgress.cpp','MaximizationProgressEvent<double>','MaximizationProgressEvent<float>')),
 b('c22-prefix','C22',(A+'MaximizationProgress.cpp','event->id() == "MaximizationProgressEvent"','event->id().find("ProgressEvent") != std::string::npos && event->id()[0] != \'E\'')) if False else
 b('c22-wrong-kind','C22',(A+'MaximizationProgress.cpp','events::MaximizationProgressEvent<double>','events::ExpectationProgressEvent<double>')),
 # optimization
 b('c21-accept-equal-tries','C21',(GD,'            do {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n            } while (value > value_x0 - a * decrease);','            int tries = 0;\n            do {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n            } while (value > value_x0 - a * decrease && ++tries < 30);')),
 b('c21-sign','C21',(GD,'value_x0 - a * decrease','value_x0 + a * decrease')),
 b('c21-stale','C21',(GD,'            x0 -= a * direction;\n\n            return value;','            x0 -= a * tau_ * direction;\n\n            return value;')),
 b('c21-return-old','C21',(GD,'            return value;\n        }\n\n    private:\n        Scalar beta_;','            return value_x0;\n        }\n\n    private:\n        Scalar beta_;')),
 b('c21-no-a','C21',(GD,'value_x0 - a * decrease','value_x0 - decrease * 0 * a')),
 b('c21-abs','C21',(GD,'value > value_x0 - a * decrease)','value - value_x0 > value_x0 * a * decrease)')),
 b('c21-stale-grad','C21',(GD,'                problem.gradient(x0, grad);','                if (iterations == 1)\n                    problem.gradient(x0, grad);')),
 b('c21-up','C21',(GD,'            x0 -= a * direction;','            x0 += a * direction;'),(GD,'x_copy = x0 - a * direction','x_copy = x0 + a * direction')),
 b('c21-progress-old','C21',(GD,'                value = line_search_->search(problem, x0, grad, grad);','                Scalar next = line_search_->search(problem, x0, grad, grad);\n                if (next == next && iterations % 2)\n                    value = next;')),
 b('c21-const','C21',(GD,'            x0 -= alpha_ * direction;\n\n            return problem.value(x0);','            Scalar value = problem.value(x0);\n            x0 -= alpha_ * direction;\n\n            return value;')),
 b('c20-gd','C20',(GD,'iterations++))','iterations))')),
 b('c20-armijo','C20',(GD,'                a *= tau_;\n                x_copy','                a *= 1;\n                x_copy')),
 b('c28-grad','C28',(O+'MultinomialLogisticRegression.cpp','    grad.fill(0);\n','')),
 b('c28-grad2','C28',(O+'SecondOrderLogisticRegressionApproximation.cpp','    grad.fill(0);\n    VectorX eta_Ez','    if (y_.rows() > 0)\n        grad.fill(0);\n    VectorX eta_Ez')),
 b('c28-cy','C28',(O+'SecondOrderLogisticRegressionApproximation.cpp','    Cy_ = VectorX::Zero(C);','    Cy_ = VectorX(C);')),
 b('c24-t','C24',(O+'MultinomialLogisticRegression.cpp','        grad += Cy_[y_[d]] * (X_.col(d) * t.transpose()) / t.sum();','        grad += Cy_[y_[d]] * (t * X_.col(d).transpose()) / t.sum();')),
 b('c24-cyd','C24',(O+'MultinomialLogisticRegression.cpp','        likelihood += Cy_[y_[d]] * t[y_[d]];','        likelihood += Cy_[d] * t[y_[d]];')),
 b('c24-td','C24',(O+'SecondOrderLogisticRegressionApproximation.cpp','        likelihood += Cy_[y_[d]] * t[y_[d]];','        likelihood += Cy_[y_[d]] * t[d];')),
 b('c24-xvar','C24',(O+'SecondOrderLogisticRegressionApproximation.cpp','        eta_Vz = eta.transpose() * X_var_[d];','        eta_Vz = eta.transpose() * X_var_[y_[d]];')),
 b('c24-loop','C24',(O+'MultinomialLogisticRegression.cpp','    for (int d=0; d<y_.rows(); d++) {\n        t = eta','    for (int d=0; d<X_.rows(); d++) {\n        t = eta')),
 b('c09-L','C09',(O+'MultinomialLogisticRegression.cpp','    grad.array() += eta.array() * L_;','    grad.array() += eta.array();')),
 b('c23-float-sum','C23',(O+'MultinomialLogisticRegression.cpp','    Scalar likelihood = 0;','    float likelihood = 0;')),
 b('c23-inst','C23',(O+'MultinomialLogisticRegression.cpp','template class MultinomialLogisticRegression<float>;\n','')) ,
 b('c23-int-norm','C23',(O+'SecondOrderLogisticRegressionApproximation.cpp','        eta_Vz /= 2;','        eta_Vz *= 1 / 2;')) if False else
 b('c23-float-t','C23',(EU,'            Scalar t = 1. / (h','            float t = 1. / (h')),
 # e_step_utils
 b('c28-exp-eta','C28',(EU,'    VectorX<Scalar> products = VectorX<Scalar>::Constant(eta.cols(), 1.0);\n    VectorX<Scalar> psi','    VectorX<Scalar> products(eta.cols());\n    VectorX<Scalar> psi')),
 b('c28-zbar','C28',(EU,'VectorX<Scalar> z_bar = VectorX<Scalar>::Zero(phi.rows());','VectorX<Scalar> z_bar(phi.rows());')),
 b('c18-phisum','C18',(EU,'            if (phi_sum != 0)\n                phi.col(n)','            phi.col(n)')),
 b('c18-skip','C18',(EU,'        if (X[n] == 0 || beta.col(n).sum() == 0)\n            continue;','        if (beta.col(n).sum() == 0)\n            continue;')),
 b('c18-max1','C18',(EU,'X.cast<Scalar>() / std::max(X.sum(), 1);','X.cast<Scalar>() / X.sum();')),
 b('c18-logmax','C18',(EU,'-std::log(std::max(X.sum(), 1))','-std::log(X.sum())')),
 b('c18-numwords','C18',(EU,'    if (num_words == 0) {\n        return;\n    }\n\n','')) if False else
 b('c18-maxeta','C18',(EU,'    if (max_eta > 0)\n        eta_scaled','    eta_scaled')),
 b('c18-lik-n','C18',(EU,'    if (n < 0)\n        return likelihood;\n','')),
 b('c26-tau','C26',(EU,'    math_utils::normalize_cols(tau);\n','')),
 b('c26-rows','C26',(EU,'    phi = beta.array().colwise() * exp_psi_gamma;\n    //phi = phi.array().rowwise() / phi.colwise().sum().array();\n    math_utils::normalize_cols(phi);','    phi = beta.array().colwise() * exp_psi_gamma;\n    math_utils::normalize_rows(phi);')),
 b('c26-gamma','C26',(EU,'    gamma = alpha;\n    math_utils::sum','    gamma = VectorX<Scalar>::Ones(alpha.rows());\n    math_utils::sum')),
 b('c26-gamma-x','C26',(EU,'        gamma += X[n]*(phi.col(n) - old_phi_n);','        gamma += phi.col(n) - old_phi_n;')),
 b('c26-gamma-old','C26',(EU,'        old_phi_n = phi.col(n);\n        for (size_t i','        for (size_t i'),(EU,'        // Remove the nth word\n        products.array() /= (exp_eta_scaled.transpose() * phi.col(n)).array();\n\n        // Compute h w.r.t phi_n\n        h = exp_eta_scaled * products;\n\n        // Fixed','        // Remove the nth word\n        products.array() /= (exp_eta_scaled.transpose() * phi.col(n)).array();\n        if (n == 0)\n            old_phi_n = phi.col(n);\n\n        // Compute h w.r.t phi_n\n        h = exp_eta_scaled * products;\n\n        // Fixed')),
 b('c24-colwise','C24',(EU,'    likelihood += (phi_scaled.colwise() * eta.col(y).array().log()).sum();','    likelihood += (phi_scaled.rowwise() * eta.row(y).array().log()).sum();')) if False else
 b('c24-etarow','C24',(EU,'psi_gamma + X_ratio[n]*eta.col(y) - h * t\n            ).array().unaryExpr','psi_gamma + X_ratio[n]*eta.row(y).transpose() - h * t\n            ).array().unaryExpr')),
 b('c24-xratio','C24',(EU,'psi_gamma + X_ratio[n]*eta.col(y) - h * t\n            ).array().unaryExpr','psi_gamma + X_ratio[y]*eta.col(y) - h * t\n            ).array().unaryExpr')),
 b('c20-fixed','C20',(EU,'for (size_t i=0; i<fixed_point_iterations; i++) {\n            Scalar t','for (size_t i=0; i<=fixed_point_iterations; i++) {\n            Scalar t')),
 b('c20-fixed-n','C20',(EU,'for (size_t i=0; i<fixed_point_iterations; i++) {\n            Scalar t','for (size_t i=n; i<fixed_point_iterations; i++) {\n            Scalar t')),
 # refactorings
 r('r-builder-loop',(LB,'    for (size_t i=0; i<class_weights.size(); i++) {\n        weights[i] = class_weights[i];\n    }','    size_t i = 0;\n    for (auto w : class_weights) {\n        weights[i++] = w;\n    }')),
 r('r-builder-map',(LB,'    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights(class_weights.size());\n    for (size_t i=0; i<class_weights.size(); i++) {\n        weights[i] = class_weights[i];\n    }','    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights =\n        Eigen::Map<Eigen::Matrix<Scalar, Eigen::Dynamic, 1> >(class_weights.data(), class_weights.size());')),
 r('r-builder-copy',(LB,'    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights(class_weights.size());\n    for (size_t i=0; i<class_weights.size(); i++) {\n        weights[i] = class_weights[i];\n    }','    Eigen::Matrix<Scalar, Eigen::Dynamic, 1> weights(class_weights.size());\n    std::copy(class_weights.begin(), class_weights.end(), weights.data());')),
 r('r-builder-seed-local',(LB,'    // Initliaze beta with ones to implement add one smoothing\n    model_parameters_->beta = MatrixX::Constant(\n        topics,\n        (corpus->at(0)->get_words()).rows(),\n        1.0\n    );','    size_t vocabulary = corpus->at(0)->get_words().rows();\n    model_parameters_->beta = MatrixX::Ones(topics, vocabulary);')),
 r('r-builder-seed-row',(LB,'        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n    }\n','    }\n    math_utils::normalize_rows(model_parameters_->beta);\n')),
 r('r-builder-seed-acc',(LB,'        for (size_t r=0; r<N; r++) {\n            model_parameters_->beta.row(k) += corpus->at(document(rng))->get_words().cast<Scalar>().transpose();\n        }\n        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();','        VectorX topic = model_parameters_->beta.row(k).transpose();\n        for (size_t r=0; r<N; r++) {\n            auto doc = corpus->at(document(rng));\n            topic += doc->get_words().cast<Scalar>();\n        }\n        model_parameters_->beta.row(k) = (topic / topic.sum()).transpose();')),
 r('r-builder-seed-while',(LB,'        for (size_t r=0; r<N; r++) {\n            model_parameters_','        size_t left = N;\n        while (left-- > 0) {\n            model_parameters_')),
 r('r-builder-rand-expr',(LB,'    for (size_t k=0; k<topics; k++) {\n        for (size_t w=0; w<words; w++) {\n            model_parameters_->beta(k, w) = dis(rng);\n        }\n    }\n\n    // Normalize beta\n    math_utils::normalize_rows(model_parameters_->beta);','    MatrixX beta(topics, words);\n    for (size_t k=0; k<topics; k++) {\n        for (size_t w=0; w<words; w++) {\n            beta(k, w) = dis(rng);\n        }\n    }\n    math_utils::normalize_rows(beta);\n    model_parameters_->beta = beta;')),
 r('r-builder-eta',(LB,'    // Zero the supervised parameters\n    model_parameters_->eta = MatrixX::Constant(\n        topics,\n        num_classes,\n        1.0 / num_classes\n    );','    const Scalar uniform = 1.0 / num_classes;\n    model_parameters_->eta.setConstant(topics, num_classes, uniform);')),
 r('r-builder-eta-guard',(LB,'    size_t topics = model_parameters_->beta.rows();\n    if (topics <= 0) {\n        throw std::runtime_error("You need to call initialize_topics_*() "\n                                 "before initializing eta");\n    }\n\n    // Zero the supervised parameters\n    model_parameters_->eta = MatrixX::Zero(','    size_t topics = model_parameters_->beta.rows();\n    const bool initialized = topics > 0;\n    if (!initialized) {\n        throw std::runtime_error("You need to call initialize_topics_*() "\n                                 "before initializing eta");\n    }\n\n    // Zero the supervised parameters\n    model_parameters_->eta = MatrixX::Zero(')),
 r('r-builder-semi',(LB,'    if (supervised_step == nullptr) {\n        supervised_step = get_fast_supervised_e_step();\n    }\n    if (unsupervised_step == nullptr) {\n        unsupervised_step = get_classic_e_step();\n    }\n\n    return std::make_shared<em::SemiSupervisedEStep<Scalar> >(\n        supervised_step,\n        unsupervised_step\n    );','    auto sup = supervised_step ? supervised_step : get_fast_supervised_e_step();\n    auto unsup = unsupervised_step ? unsupervised_step : get_classic_e_step();\n\n    return std::make_shared<em::SemiSupervisedEStep<Scalar> >(sup, unsup);')),
 r('r-np-size-helper',(NF,'                // compute the total size of the data\n                size_t N = 1;\n                for (auto c : data.shape_) {\n                    N *= c;\n                }\n','                // compute the total size of the data\n                size_t N = 1;\n                for (size_t i=0; i<data.shape_.size(); i++) {\n                    N = N * data.shape_[i];\n                }\n')),
 r('r-np-idx',(NF,'                for (int i=0; i<cols; i++) {\n                    for (int j=0; j<rows; j++) {\n                        int idx = (fortran_) ? i*rows + j : j*cols + i;\n\n                        matrix(j, i) = data_[idx];\n                    }\n                }','                for (int r=0; r<rows; r++) {\n                    for (int c=0; c<cols; c++) {\n                        if (fortran_)\n                            matrix(r, c) = data_[r + c*rows];\n                        else\n                            matrix(r, c) = data_[c + r*cols];\n                    }\n                }')),
 r('r-np-swap-reverse',(NF,'            for (size_t j=0; j<sizeof(Scalar)/2; j++) {\n                std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);\n            }','            for (size_t j=0, k=sizeof(Scalar)-1; j<k; j++, k--) {\n                std::swap(d.c[j], d.c[k]);\n            }')),
 r('r-np-pad',(NF,'                while ((static_cast<size_t>(header.tellp()) + 11) % 16) {\n                    header << " ";\n                }\n                header << "\\n";','                size_t length = header.tellp();\n                size_t padding = (16 - (length + 11) % 16) % 16;\n                header << std::string(padding, \' \') << "\\n";')),
 r('r-np-hdr-str',(NF,'                std::vector<char> buffer(header_len+1);\n                is.read(&buffer[0], header_len);\n                if (!is) {\n                    throw std::runtime_error("The array header is truncated");\n                }\n                buffer[header_len] = 0;\n                std::string header(&buffer[0]);','                std::string header(header_len, \' \');\n                is.read(&header[0], header_len);\n                if (!is) {\n                    throw std::runtime_error("The array header is truncated");\n                }')),
 r('r-np-fail',(NF,'                if (!is) {\n                    throw std::runtime_error("The array data is truncated");','                if (is.fail()) {\n                    throw std::runtime_error("The array data is truncated");')),
 r('r-np-gcount',(NF,'                if (!is) {\n                    throw std::runtime_error("The array data is truncated");','                if (static_cast<size_t>(is.gcount()) != N*sizeof(Scalar)) {\n                    throw std::runtime_error("The array data is truncated");')),
 r('r-np-helper',(NF,'    /**\n     * NumpyInput','    inline void check_stream(std::istream &is, const char *message) {\n        if (!is) {\n            throw std::runtime_error(message);\n        }\n    }\n\n    /**\n     * NumpyInput'),(NF,'                if (!is) {\n                    throw std::runtime_error("The array data is truncated");\n                }','                check_stream(is, "The array data is truncated");')) ,
 r('r-io-ofstream',(IO,'    std::fstream model(\n        model_path,\n        std::ios::out | std::ios::binary\n    );','    std::ofstream model(model_path, std::ios::binary);')),
 r('r-io-ifstream',(IO,'    std::fstream model(\n        model_path,\n        std::ios::in | std::ios::binary\n    );','    std::ifstream model(model_path, std::ios::binary);')),
 r('r-io-chain',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->eta);','    model << numpy_format::NumpyOutput<double>(model_parameters->alpha)\n          << numpy_format::NumpyOutput<double>(model_parameters->beta)\n          << numpy_format::NumpyOutput<double>(model_parameters->eta);')),
 r('r-io-helper',(IO,'std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(','static Eigen::MatrixXd next_array(std::istream &in) {\n    numpy_format::NumpyInput<double> ni;\n    in >> ni;\n    return ni;\n}\n\nstd::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda('),(IO,'    numpy_format::NumpyInput<double> ni;\n\n    // open the file\n','    // open the file\n'),(IO,'    model >> ni; model_parameters->alpha = ni;\n    model >> ni; model_parameters->beta = ni;\n    model >> ni; model_parameters->eta = ni;','    model_parameters->alpha = next_array(model);\n    model_parameters->beta = next_array(model);\n    model_parameters->eta = next_array(model);')),
 r('r-io-save',(IO,'    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->eta);','    numpy_format::save(model, model_parameters->alpha);\n    numpy_format::save(model, model_parameters->beta);\n    numpy_format::save(model, model_parameters->eta);')),
 r('r-snap-path',(A+'SnapshotEvery.cpp','    std::stringstream actual_path;\n    actual_path << path_ << "_";\n    actual_path.fill(\'0\');\n    actual_path.width(3);\n    actual_path << seen_so_far_;\n\n    io::save_lda(actual_path.str(), parameters);','    std::string number = std::to_string(seen_so_far_);\n    while (number.size() < 3)\n        number = "0" + number;\n\n    io::save_lda(path_ + "_" + number, parameters);')),
 r('r-snap-return',(A+'SnapshotEvery.cpp','    if (event->id() == "EpochProgressEvent") {\n        auto progress = std::static_pointer_cast<events::EpochProgressEvent<double> >(event);\n\n        seen_so_far_ ++;\n        if (seen_so_far_ % save_every_ == 0) {\n            snapshot(progress->model_parameters());\n        }\n    }','    if (event->id() != "EpochProgressEvent")\n        return;\n\n    ++seen_so_far_;\n    if (seen_so_far_ % save_every_ != 0)\n        return;\n\n    auto progress = std::static_pointer_cast<events::EpochProgressEvent<double> >(event);\n    snapshot(progress->model_parameters());')),
 r('r-epoch',(A+'EpochProgress.cpp','        if (std::isfinite(progress->likelihood()) && progress->likelihood() < 0) {\n            likelihood_ += progress->likelihood();','        const double likelihood = progress->likelihood();\n        if (std::isfinite(likelihood) && likelihood < 0) {\n            likelihood_ += likelihood;')),
 r('r-app-listeners',(A+'slda.cpp','            lda.get_event_dispatcher()->add_listener<EpochProgress>();\n            lda.get_event_dispatcher()->add_listener<ExpectationProgress>();\n            lda.get_event_dispatcher()->add_listener<MaximizationProgress>();','            auto dispatcher = lda.get_event_dispatcher();\n            dispatcher->add_listener<EpochProgress>();\n            dispatcher->add_listener<ExpectationProgress>();\n            dispatcher->add_listener<MaximizationProgress>();')),
 r('r-app-train-fn',(A+'lda.cpp','int main(int argc, char **argv) {','static void save_model(std::map<std::string, docopt::value> &args, LDA<double> &lda) {\n    const std::string path = args["MODEL"].asString();\n    io::save_lda(path, lda.model_parameters());\n}\n\nint main(int argc, char **argv) {'),(A+'lda.cpp','        io::save_lda(\n            args["MODEL"].asString(),\n            lda.model_parameters()\n        );','        save_model(args, lda);')),
 r('r-app-locals',(A+'fslda.cpp','    builder.set_fast_supervised_m_step(\n        args["--m_step_iterations"].asLong(),\n        std::stof(args["--m_step_tolerance"].asString()),\n        std::stof(args["--regularization_penalty"].asString())\n    );','    auto iterations = args["--m_step_iterations"].asLong();\n    auto tolerance = std::stof(args["--m_step_tolerance"].asString());\n    auto penalty = std::stof(args["--regularization_penalty"].asString());\n    builder.set_fast_supervised_m_step(iterations, tolerance, penalty);')),
 r('r-app-snap',(A+'lda.cpp','        if (args["--snapshot_every"].asLong() > 0) {\n            lda.get_event_dispatcher()->add_listener<SnapshotEvery>(\n                args["MODEL"].asString(),\n                args["--snapshot_every"].asLong()\n            );\n        }','        const long every = args["--snapshot_every"].asLong();\n        if (every > 0) {\n            std::string path = args["MODEL"].asString();\n            lda.get_event_dispatcher()->add_listener<SnapshotEvery>(path, every);\n        }')),
 r('r-app-transform',(A+'slda.cpp','        Eigen::MatrixXd doc_topic_distribution;\n        doc_topic_distribution = lda.transform(X);\n\n        numpy_format::save(\n            args["OUTPUT"].asString(),\n            doc_topic_distribution\n        );','        const Eigen::MatrixXd topics = lda.transform(X);\n        const std::string output = args["OUTPUT"].asString();\n        numpy_format::save(output, topics);')),
 r('r-app-weights',(A+'utils.cpp','    for (int d=0; d<y.rows(); d++) {\n        // documents without a label have a negative class\n        if (y[d] >= 0)\n            Cy[y[d]]++;\n    }','    for (int d=0; d<y.rows(); d++) {\n        const int label = y[d];\n        if (label < 0)\n            continue;\n        Cy[label] += 1;\n    }')),
 r('r-gd-for',(GD,'            do {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n            } while (value > value_x0 - a * decrease);\n\n            x0 -= a * direction;','            while (true) {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n                if (!(value > value_x0 - a * decrease))\n                    break;\n            }\n\n            x0 = x_copy;')),
 r('r-gd-for2',(GD,'            Scalar a = 1.0/tau_;\n\n            do {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n            } while (value > value_x0 - a * decrease);\n','            Scalar a = 1.0;\n            x_copy = x0 - a * direction;\n            value = problem.value(x_copy);\n            while (value > value_x0 - a * decrease) {\n                a *= tau_;\n                x_copy = x0 - a * direction;\n                value = problem.value(x_copy);\n            }\n')),
 r('r-gd-dot',(GD,'beta_ * (grad_x0.array() * direction.array()).sum()','beta_ * grad_x0.cwiseProduct(direction).sum()')),
 r('r-gd-min',(GD,'            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {\n                problem.gradient(x0, grad);\n                value = line_search_->search(problem, x0, grad, grad);\n            }','            for (;; iterations++) {\n                Scalar norm = grad.template lpNorm<Eigen::Infinity>();\n                if (!progress_(value, norm, iterations))\n                    return;\n                problem.gradient(x0, grad);\n                value = line_search_->search(problem, x0, grad, grad);\n            }')),
 r('r-mlr-label',(O+'MultinomialLogisticRegression.cpp','        t = eta.transpose() * X_.col(d);\n        likelihood += Cy_[y_[d]] * t[y_[d]];\n        likelihood -= Cy_[y_[d]] * std::log(t.array().exp().sum());','        const int label = y_[d];\n        t = eta.transpose() * X_.col(d);\n        Scalar log_normalizer = std::log(t.array().exp().sum());\n        likelihood += Cy_[label] * (t[label] - log_normalizer);')),
 r('r-mlr-auto',(O+'MultinomialLogisticRegression.cpp','    VectorX t(eta.cols());\n\n    for (int d=0; d<y_.rows(); d++) {\n        grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);\n\n        t = (eta.transpose() * X_.col(d)).array().exp();\n        grad +=','    for (int d=0; d<y_.rows(); d++) {\n        VectorX t = (eta.transpose() * X_.col(d)).array().exp();\n\n        grad.col(y_[d]) -= Cy_[y_[d]] * X_.col(d);\n        grad +=')),
 r('r-mlr-zero',(O+'MultinomialLogisticRegression.cpp','    grad.fill(0);\n','    grad.setZero();\n')),
 r('r-mlr-reg',(O+'MultinomialLogisticRegression.cpp','    grad.fill(0);\n','    grad = eta * L_;\n'),(O+'MultinomialLogisticRegression.cpp','    // Add suitable normalization for the gradient\n    grad.array() += eta.array() * L_;\n','')),
 r('r-slr-split',(O+'SecondOrderLogisticRegressionApproximation.cpp','        likelihood -= Cy_[y_[d]] * std::log(\n            (t.array().exp() * (1. + 0.5 * (eta.transpose() * X_var_[d] * eta).diagonal().array())).sum()\n        );','        VectorX curvature = (eta.transpose() * X_var_[d] * eta).diagonal();\n        VectorX terms = t.array().exp() * (1. + 0.5 * curvature.array());\n        likelihood -= Cy_[y_[d]] * std::log(terms.sum());')),
 r('r-eu-h-word',(EU,'        exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);\n        //exp_eta_scaled = (eta * X_ratio[n]).array().exp();\n\n        // Remove the nth word\n        products.array() /= (exp_eta_scaled.transpose() * phi.col(n)).array();\n\n        // Compute h w.r.t phi_n\n        h = exp_eta_scaled * products;\n        break;','        exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);\n        VectorX<Scalar> last = exp_eta_scaled.transpose() * phi.col(n);\n        products = products.cwiseQuotient(last);\n        h = exp_eta_scaled * products;\n        return;')),
 r('r-eu-absent',(EU,'        // Skip this word if it is not in the document or no topic emits it\n        if (X[n] == 0 || beta.col(n).sum() == 0)\n            continue;','        // Skip this word if it is not in the document or no topic emits it\n        const bool absent = X[n] == 0;\n        const bool never_emitted = beta.col(n).sum() == 0;\n        if (absent || never_emitted)\n            continue;')),
 r('r-eu-gamma',(EU,'    gamma = alpha;\n    math_utils::sum_cols_scaled(phi, X, gamma);','    gamma.setZero();\n    math_utils::sum_cols_scaled(phi, X, gamma);\n    gamma += alpha;')),
 r('r-eu-softmax',(EU,'    VectorX<Scalar> softmax_eta_z = (eta.transpose() * z_bar).unaryExpr(cwise_fast_exp);\n    softmax_eta_z = softmax_eta_z / softmax_eta_z.sum();','    VectorX<Scalar> scores = eta.transpose() * z_bar;\n    VectorX<Scalar> softmax_eta_z = scores.unaryExpr(cwise_fast_exp);\n    const Scalar total = softmax_eta_z.sum();\n    softmax_eta_z /= total;')),
 r('r-eu-scaled',(EU,'    Scalar max_eta = eta.maxCoeff();\n    MatrixX<Scalar> eta_scaled = eta;\n    if (max_eta > 0)\n        eta_scaled /= max_eta;','    Scalar max_eta = eta.maxCoeff();\n    const Scalar scale = max_eta > 0 ? max_eta : Scalar(1);\n    MatrixX<Scalar> eta_scaled = eta / scale;')),
 r('r-eu-phisum',(EU,'            Scalar phi_sum = phi.col(n).sum();\n            if (phi_sum != 0)\n                phi.col(n).array() /= phi_sum;','            const Scalar phi_sum = phi.col(n).sum();\n            if (phi_sum == 0)\n                continue;\n            phi.col(n) /= phi_sum;')),
 r('r-eu-lik-terms',(EU,'    likelihood += ((alpha.array() - 1.0).matrix().transpose() * t1).value();\n    likelihood += std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();','    const Scalar prior_term = (alpha.array() - 1.0).matrix().dot(t1);\n    const Scalar alpha_norm = std::lgamma(alpha.sum()) - alpha.unaryExpr(cwise_lgamma).sum();\n    likelihood += prior_term + alpha_norm;')),
 r('r-eu-multi',(EU,'    phi = beta.array().colwise() * (\n        (eta_weight*eta.col(y).array().log() + t1 - t2).unaryExpr(cwise_fast_exp).array()\n    );','    VectorX<Scalar> weights = (eta_weight*eta.col(y).array().log() + t1 - t2).unaryExpr(cwise_fast_exp);\n    phi = beta.array().colwise() * weights.array();')),
]
MUTS += [
 ('c20-armijo-grow', ['C20'], 1, [(GD, '                a *= tau_;\n', '                a /= tau_;\n'), (GD, 'Scalar a = 1.0/tau_;', 'Scalar a = tau_;')]),
 ('c20-armijo-two', ['C20'], 1, [(GD, '                a *= tau_;\n', '                a *= 2;\n')]),
 ('r-armijo-inv', ['C20', 'C21'], 0, [(GD, '                a *= tau_;\n', '                a = a / inv_;\n'), (GD, 'Scalar a = 1.0/tau_;', 'Scalar a = inv_;'), (GD, '        Scalar tau_;\n', '        Scalar inv_;\n'), (GD,'tau_(tau)','inv_(1 / tau)')]),
]
MUTS += [
 ('c23-int-sum', ['C23'], 1, [(O+'MultinomialLogisticRegression.cpp','    Scalar likelihood = 0;','    int likelihood = 0;')]),
]
