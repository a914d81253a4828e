L='src/ldaplusplus/LDA.cpp'; EM='src/ldaplusplus/em/'; ES='src/ldaplusplus/e_step_utils.cpp'; A='src/applications/'
MUTS=[
('est-alpha',['C07'],1,[(EM+'SupervisedEStep.cpp',"    // allocate memory for helper variables","    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->alpha.array() += 1e-9;")]),
('est-const-cast',['C07'],1,[(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    const_cast<MatrixX &>(beta).array() += 1e-12;\n")]),
('est-ptr',['C07'],1,[(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    Scalar *p = const_cast<Scalar *>(beta.data());\n    p[0] = 0;\n")]),
('est-fill',['C07'],1,[(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    auto m = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters);\n    std::fill(m->beta.data(), m->beta.data() + 1, 0);\n")]),
('est-norm-beta',['C07'],1,[(EM+'FastSupervisedEStep.cpp',"    // to check for convergence\n","    auto m = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters);\n    math_utils::normalize_rows(m->beta);\n")]),
('tr-swap',['C07'],1,[(L,"    return gammas;","    model->beta.swap(gammas);\n    return gammas;")]),
('tr-move',['C07'],1,[(L,"    MatrixX gammas(model->beta.rows(), X.cols());","    MatrixX gammas(model->beta.rows(), X.cols());\n    MatrixX b = std::move(model->beta);")]),
('tr-mstep',['C07','C06'],1,[(L,"    return gammas;","    m_step_->m_step(model_parameters_);\n    return gammas;")]),
('dec-eta',['C07'],1,[(L,"    return model->eta.transpose() * expected_z_bar;","    model->eta.transposeInPlace();\n    return model->eta * expected_z_bar;")]),
('dec-alpha',['C07'],1,[(L,"    MatrixX expected_z_bar = X.colwise() - model->alpha;","    model->alpha.array() /= model->alpha.sum();\n    MatrixX expected_z_bar = X.colwise() - model->alpha;")]),
('dec-reset',['C07'],1,[(L,"    return model->eta.transpose() * expected_z_bar;","    model_parameters_ = std::make_shared<parameters::SupervisedModelParameters<Scalar> >(*model);\n    return model->eta.transpose() * expected_z_bar;")]),
('m-alpha',['C07'],1,[(EM+'UnsupervisedMStep.cpp',"    b_.fill(0);","    b_.fill(0);\n    model->alpha.array() *= 0.999;")]),
('m-alpha2',['C07'],1,[(EM+'FastSupervisedMStep.cpp',"    expected_z_bar_.col(docs_) = gamma - alpha;","    const_cast<VectorX &>(alpha) = gamma;\n    expected_z_bar_.col(docs_) = gamma - alpha;")]),
('m-whole',['C07'],1,[(EM+'MultinomialSupervisedMStep.cpp',"    model->beta = b_;\n","    *model = parameters::SupervisedModelParameters<Scalar>(VectorX::Ones(b_.rows()), b_, h_);\n")]),
('m-eta',['C07'],1,[(EM+'UnsupervisedMStep.cpp',"    b_.fill(0);","    b_.fill(0);\n    std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta.resize(0, 0);")]),
('fit-alpha',['C07'],1,[(L,"    // Perform any corpuswise action related to e step\n","    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(model_parameters_)->alpha.array() += 1;\n")]),
('listener',['C07'],1,[(A+'SnapshotEvery.cpp',"        auto progress = std::static_pointer_cast<events::EpochProgressEvent<double> >(event);","        auto progress = std::static_pointer_cast<events::EpochProgressEvent<double> >(event);\n        std::static_pointer_cast<ldaplusplus::parameters::ModelParameters<double> >(progress->model_parameters())->beta.array() += 0.0001;")]),
('r-copy',['C07'],0,[(L,"    MatrixX expected_z_bar = X.colwise() - model->alpha;","    VectorX a = model->alpha;\n    a.array() += 0;\n    MatrixX expected_z_bar = X.colwise() - a;"),(L,"template <typename Scalar>\ntypename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {","template <typename Scalar>\ntypename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {\n    typedef Eigen::Matrix<Scalar, Eigen::Dynamic, 1> VectorX;")]),
('r-local',['C07'],0,[(EM+'UnsupervisedEStep.cpp',"    // to check for convergence\n","    MatrixX scaled = beta;\n    scaled.array() *= 2;\n")]),
('r-ref',['C07'],0,[(EM+'FastOnlineSupervisedMStep.cpp',"    const VectorX &alpha = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(m_parameters)->alpha;","    VectorX &alpha = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(m_parameters)->alpha;")]),
]
