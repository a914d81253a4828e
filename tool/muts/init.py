EM='src/ldaplusplus/em/'; EH='include/ldaplusplus/em/'; OP='src/ldaplusplus/optimization/'
GD='include/ldaplusplus/optimization/GradientDescent.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'
U='include/ldaplusplus/utils.hpp'; L='src/ldaplusplus/LDA.cpp'; D='src/ldaplusplus/Document.cpp'
LB='src/ldaplusplus/LDABuilder.cpp'
def m(n,e,*ed): return (n,['C28'],e,list(ed))
UM=EM+'UnsupervisedMStep.cpp'; UE=EM+'UnsupervisedEStep.cpp'; SE=EM+'SupervisedEStep.cpp'; ON=EM+'FastOnlineSupervisedMStep.cpp'
MUTS=[
 m('um-b',1,(UM,'b_ = MatrixX::Zero(phi.rows(), phi.cols());','b_ = MatrixX(phi.rows(), phi.cols());')),
 m('um-b-resize',1,(UM,'b_ = MatrixX::Zero(phi.rows(), phi.cols());','b_.resize(phi.rows(), phi.cols());')),
 m('on-vel',1,(ON,'eta_velocity_ = MatrixX::Zero(phi.rows(), num_classes_);','eta_velocity_ = MatrixX(phi.rows(), num_classes_);')),
 m('h-zero',1,(EU,'VectorX<Scalar> h = VectorX<Scalar>::Zero(phi.rows());','VectorX<Scalar> h(phi.rows());')),
 m('gamma-old',1,(UE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old(num_topics);')),
 m('gamma-old-s',1,(SE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old(num_topics);')),
 m('docs',1,(EH+'FastSupervisedMStep.hpp',',\n            docs_(0)','')),
 m('docs-s',1,(EH+'SupervisedMStep.hpp',',\n            docs_(0)','')),
 m('logpy',1,(EH+'MultinomialSupervisedMStep.hpp','mu_(mu), log_py_(0)','mu_(mu)')),
 m('logpy-c',1,(EH+'CorrespondenceSupervisedMStep.hpp','mu_(mu), log_py_(0)','mu_(mu)')),
 m('tol',1,(UE,'    e_step_tolerance_ = e_step_tolerance;\n','')),
 m('iters',1,(UE,'    e_step_iterations_ = e_step_iterations;\n','')),
 m('priors',1,(D,'    priors_.fill(0);\n','')),
 m('cy',1,(OP+'MultinomialLogisticRegression.cpp','Cy_ = VectorX::Zero(C);','Cy_ = VectorX(C);')),
 m('cy-s',1,(OP+'SecondOrderLogisticRegressionApproximation.cpp','Cy_ = VectorX::Zero(C);','Cy_ = VectorX(C);')),
 m('gd-tau',1,(GD,'''beta_(beta),
                                                              tau_(tau)''','''beta_(beta)''')),
 m('r-seedbeta',0,(LB,'model_parameters_->beta = MatrixX::Zero(topics, words);','model_parameters_->beta = MatrixX(topics, words);')),
 m('r-guard',0,(UE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old(num_topics);'),(UE,'if (this->converged','if (iteration > 0 && this->converged')),
 # behaviour kept
 m('r-decl',0,(UE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old(num_topics);\n    gamma_old.setZero();')),
 m('r-fill',0,(UE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old;\n    gamma_old.resize(num_topics);\n    gamma_old.fill(0);')),
 m('r-loop',0,(UE,'VectorX gamma_old = VectorX::Zero(num_topics);','VectorX gamma_old(num_topics);\n    for (int i=0; i<num_topics; i++)\n        gamma_old[i] = 0;')),
 m('r-branches',0,(UE,'    int num_topics = beta.rows();\n','    int num_topics;\n    if (beta.rows() > 0)\n        num_topics = beta.rows();\n    else\n        num_topics = 0;\n')),
 m('r-resize',0,(UM,'b_ = MatrixX::Zero(phi.rows(), phi.cols());','{\n        b_.resize(phi.rows(), phi.cols());\n        b_.setZero();\n    }')),
 m('r-setzero2',0,(UM,'b_ = MatrixX::Zero(phi.rows(), phi.cols());','b_.setZero(phi.rows(), phi.cols());')),
 m('r-noalias',0,(EU,'VectorX<Scalar> h = VectorX<Scalar>::Zero(phi.rows());','VectorX<Scalar> h(phi.rows());\n    h = VectorX<Scalar>::Zero(phi.rows());')),
 m('r-body',0,(EH+'MultinomialSupervisedMStep.hpp','mu_(mu), log_py_(0)\n        {}','mu_(mu)\n        { log_py_ = 0; }')),
 m('r-nsdmi',0,(EH+'FastSupervisedMStep.hpp',',\n            docs_(0)',''),(EH+'FastSupervisedMStep.hpp','int docs_;','int docs_ = 0;')),
 m('r-cyloop',0,(OP+'MultinomialLogisticRegression.cpp','Cy_ = VectorX::Zero(C);','Cy_.resize(C);\n    for (int c=0; c<C; c++)\n        Cy_(c) = 0;')),
 m('r-priors',0,(D,'    priors_.fill(0);\n','    priors_.setConstant(0);\n')),
]
