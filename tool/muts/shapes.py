EM='src/ldaplusplus/em/'; OP='src/ldaplusplus/optimization/'; EU='src/ldaplusplus/e_step_utils.cpp'
U='include/ldaplusplus/utils.hpp'; L='src/ldaplusplus/LDA.cpp'; D='src/ldaplusplus/Document.cpp'; LB='src/ldaplusplus/LDABuilder.cpp'
def m(n,e,*ed): return (n,['C24'],e,list(ed))
UE=EM+'UnsupervisedEStep.cpp'; UM=EM+'UnsupervisedMStep.cpp'; ON=EM+'FastOnlineSupervisedMStep.cpp'; CM=EM+'CorrespondenceSupervisedMStep.cpp'; MM=EM+'MultinomialSupervisedMStep.cpp'
MUTS=[
 m('phi-swap',1,(UE,'MatrixX::Constant(num_topics, X.rows(), 1.0/num_topics)','MatrixX::Constant(X.rows(), num_topics, 1.0/num_topics)')),
 m('ntopics',1,(UE,'int num_topics = beta.rows();','int num_topics = beta.cols();')),
 m('h-loop',1,(EU,'for (int n=0; n<X.rows(); n++) {\n        // Skip words that are not','for (int n=0; n<eta.rows(); n++) {\n        // Skip words that are not')),
 m('h-loop2',1,(EU,'for (int n=X.rows()-1; n>=0; n--) {\n        // Skip this','for (int n=eta.rows()-1; n>=0; n--) {\n        // Skip this')),
 m('prod-rows',1,(EU,'VectorX<Scalar> products = VectorX<Scalar>::Constant(eta.cols(), 1.0);','VectorX<Scalar> products = VectorX<Scalar>::Constant(eta.rows(), 1.0);')),
 m('h-size',1,(EU,'VectorX<Scalar> h = VectorX<Scalar>::Zero(phi.rows());','VectorX<Scalar> h = VectorX<Scalar>::Zero(phi.cols());')),
 m('norm-rows',1,(U,'    for (int i=0; i<x.rows(); i++) {\n        s = x.row(i).sum();','    for (int i=0; i<x.cols(); i++) {\n        s = x.row(i).sum();')),
 m('norm-cols',1,(U,'    for (int i=0; i<x.cols(); i++) {\n        s = x.col(i).sum();','    for (int i=0; i<x.rows(); i++) {\n        s = x.col(i).sum();')),
 m('vel',1,(ON,'eta_velocity_ = MatrixX::Zero(phi.rows(), num_classes_);','eta_velocity_ = MatrixX::Zero(num_classes_, phi.rows());')),
 m('b-swap',1,(UM,'b_ = MatrixX::Zero(phi.rows(), phi.cols());','b_ = MatrixX::Zero(phi.cols(), phi.rows());')),
 m('sum-scaled',1,(CM,'phi_scaled_.rowwise().sum()','phi_scaled_.colwise().sum()')),
 m('h-init',1,(CM,'h_ = MatrixX::Zero(model->eta.rows(), model->eta.cols());','h_ = MatrixX::Zero(model->eta.cols(), model->eta.rows());')),
 m('h-row',1,(CM,'h_.col(y) +=','h_.row(y) +=')),
 m('m-h-row',1,(MM,'h_.col(y) +=','h_.row(y) +=')),
 m('eta-row',1,(EU,'likelihood += (phi_scaled.colwise() * eta.col(y).array().log()).sum();\n    likelihood -=','likelihood += (phi_scaled.colwise() * eta.row(y).transpose().array().log()).sum();\n    likelihood -=')),
 
 m('predict',1,(L,'for (int d=0; d<scores.cols(); d++) {','for (int d=0; d<scores.rows(); d++) {')),
 m('predict2',1,(L,'Eigen::VectorXi predictions(scores.cols());','Eigen::VectorXi predictions(scores.rows());')),
 m('etazero',1,(LB,'''MatrixX::Zero(
        topics,
        num_classes
    )''','''MatrixX::Zero(
        num_classes,
        topics
    )''')),
 m('etatopics',1,(LB,'size_t topics = model_parameters_->beta.rows();','size_t topics = model_parameters_->beta.cols();')),
 m('rand-loop',1,(LB,'for (size_t w=0; w<words; w++) {','for (size_t w=0; w<topics; w++) {')),
 m('rand-swap',1,(LB,'model_parameters_->beta(k, w) = dis(rng);','model_parameters_->beta(w, k) = dis(rng);')),
 m('mlr-loop',1,(OP+'MultinomialLogisticRegression.cpp','for (int d=0; d<y_.rows(); d++) {\n        grad','for (int d=0; d<X_.rows(); d++) {\n        grad')),
 m('so-loop',1,(OP+'SecondOrderLogisticRegressionApproximation.cpp','for (int d=0; d<y_.rows(); d++) {\n        t =','for (int d=0; d<eta.rows(); d++) {\n        t =')),
 
 m('transform',1,(L,'MatrixX gammas(model->beta.rows(), X.cols());','MatrixX gammas(X.cols(), model->beta.rows());')),
 m('transform2',1,(L,'MatrixX gammas(model->beta.rows(), X.cols());','MatrixX gammas(X.rows(), X.cols());')),
 m('size',1,(D,'    return X_.cols();','    return X_.rows();')),
 # behaviour kept
 m('r-nt',0,(UE,'int num_topics = beta.rows();','int num_topics = alpha.rows();')),
 m('r-nt2',0,(UE,'int num_topics = beta.rows();','int num_topics = alpha.size();')),
 m('r-nw',0,(UE,'MatrixX::Constant(num_topics, X.rows(), 1.0/num_topics)','MatrixX::Constant(alpha.size(), beta.cols(), 1.0/num_topics)')),
 m('r-loop',0,(EU,'for (int n=0; n<X.rows(); n++) {\n        // Skip words that are not','for (int n=0; n<phi.cols(); n++) {\n        // Skip words that are not')),
 m('r-tr',0,(CM,'phi_scaled_.rowwise().sum()','phi_scaled_.transpose().colwise().sum().transpose()')),
 m('r-sum',0,(CM,'    phi_scaled_sum_ = phi_scaled_.rowwise().sum();','    for (int k=0; k<phi_scaled_.rows(); k++)\n        phi_scaled_sum_(k) = phi_scaled_.row(k).sum();')),
 m('r-mlr',0,(OP+'MultinomialLogisticRegression.cpp','for (int d=0; d<y_.rows(); d++) {\n        grad','for (int d=0; d<X_.cols(); d++) {\n        grad')),
 m('r-eta',0,(LB,'size_t topics = model_parameters_->beta.rows();','size_t topics = model_parameters_->alpha.rows();')),
 m('r-scores',0,(L,'return model->eta.transpose() * expected_z_bar;','MatrixX scores = (expected_z_bar.transpose() * model->eta).transpose();\n    return scores;')),
 m('r-oldphi',0,(EU,'VectorX<Scalar> old_phi_n = VectorX<Scalar>::Zero(eta.cols());','VectorX<Scalar> old_phi_n = VectorX<Scalar>::Zero(eta.rows());')),
 m('r-oldphi2',0,(EU,'VectorX<Scalar> old_phi_n = VectorX<Scalar>::Zero(eta.cols());','VectorX<Scalar> old_phi_n;')),
 m('r-gd',0,(EU,'        old_phi_n = phi.col(n);','        for (int k=0; k<phi.rows(); k++) old_phi_n(k) = phi(k, n);'),(EU,'VectorX<Scalar> old_phi_n = VectorX<Scalar>::Zero(eta.cols());','VectorX<Scalar> old_phi_n = VectorX<Scalar>::Zero(eta.rows());')),
]
