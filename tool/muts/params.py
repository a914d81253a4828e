LB='src/ldaplusplus/LDABuilder.cpp'
LH='include/ldaplusplus/LDABuilder.hpp'
EM='src/ldaplusplus/em/'
EU='src/ldaplusplus/e_step_utils.cpp'
MUTS=[
('swap-mu-etaw',['C09'],1,[(LB,"        mu,\n        eta_weight,\n        compute_likelihood,\n        random_state\n    );","        eta_weight,\n        mu,\n        compute_likelihood,\n        random_state\n    );")]),
('swap-mom-lr',['C09'],1,[(EM+'FastOnlineSupervisedMStep.cpp',"    eta_momentum_(eta_momentum),\n    eta_learning_rate_(eta_learning_rate),","    eta_momentum_(eta_learning_rate),\n    eta_learning_rate_(eta_momentum),")]),
('beta-weight-flip',['C09'],1,[(EM+'FastOnlineSupervisedMStep.cpp',"        beta_weight_ * beta.array() +\n        (1-beta_weight_) * new_beta.array()","        (1-beta_weight_) * beta.array() +\n        beta_weight_ * new_beta.array()")]),
('beta-weight-ref',['C09'],0,[(EM+'FastOnlineSupervisedMStep.cpp',"        beta_weight_ * beta.array() +\n        (1-beta_weight_) * new_beta.array()","        new_beta.array() +\n        beta_weight_ * (beta.array() - new_beta.array())")]),
('lr-ref',['C09'],0,[(EM+'FastOnlineSupervisedMStep.cpp',"    eta_velocity_ = eta_momentum_ * eta_velocity_ - eta_learning_rate_ * eta_gradient_;","    eta_velocity_ *= eta_momentum_;\n    eta_velocity_ -= eta_gradient_ * eta_learning_rate_;")]),
('lr-sign',['C09'],1,[(EM+'FastOnlineSupervisedMStep.cpp',"    eta_velocity_ = eta_momentum_ * eta_velocity_ - eta_learning_rate_ * eta_gradient_;","    eta_velocity_ = eta_momentum_ * eta_velocity_ + eta_learning_rate_ * eta_gradient_;")]),
('lr-momentum-both',['C09'],1,[(EM+'FastOnlineSupervisedMStep.cpp',"    eta_velocity_ = eta_momentum_ * eta_velocity_ - eta_learning_rate_ * eta_gradient_;","    eta_velocity_ = eta_momentum_ * (eta_velocity_ - eta_learning_rate_ * eta_gradient_);")]),
('fp-dropped',['C09'],1,[(EM+'SupervisedEStep.cpp',"    fixed_point_iterations_ = fixed_point_iterations;","    fixed_point_iterations_ = e_step_iterations;")]),
('fp-const',['C09'],1,[(EM+'SupervisedEStep.cpp',"    fixed_point_iterations_ = fixed_point_iterations;","    fixed_point_iterations_ = 10;")]),
('seed-dropped',['C09'],1,[(EM+'SupervisedEStep.cpp',"AbstractEStep<Scalar>(random_state)","AbstractEStep<Scalar>(0)")]),
('lik-swap',['C09'],1,[(LB,"    return std::make_shared<em::UnsupervisedEStep<Scalar> >(\n        e_step_iterations,\n        e_step_tolerance,\n        compute_likelihood,","    return std::make_shared<em::UnsupervisedEStep<Scalar> >(\n        e_step_iterations,\n        compute_likelihood,\n        e_step_tolerance,")]),
('set-swap',['C09'],1,[(LH,"            set_e(get_multinomial_supervised_e_step(\n                e_step_iterations,\n                e_step_tolerance,\n                mu,\n                eta_weight,","            set_e(get_multinomial_supervised_e_step(\n                e_step_iterations,\n                e_step_tolerance,\n                eta_weight,\n                mu,")]),
('set-drop',['C09'],1,[(LH,"            set_m(get_correspondence_supervised_m_step(mu));","            set_m(get_correspondence_supervised_m_step());")]),
('set-mult-for-corr',['C09'],1,[(LH,"            set_m(get_correspondence_supervised_m_step(mu));","            set_m(get_multinomial_supervised_m_step(mu));")]),
('iter-workers',['C09'],1,[(LH,"                iterations_,\n                workers_\n            );","                workers_,\n                iterations_\n            );")]),
('workers-const',['C09'],1,[(LH,"                iterations_,\n                workers_\n            );","                iterations_,\n                1\n            );")]),
('reg-drop',['C09'],1,[('src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp',"L_ * eta","0.01 * eta")]),
('reg-squared',['C09'],1,[('src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp',"L_ * eta.squaredNorm() / 2","L_ * eta.squaredNorm()")]),
('m-iter-tol',['C09'],1,[('include/ldaplusplus/em/FastSupervisedMStep.hpp',") : m_step_iterations_(m_step_iterations),",") : m_step_iterations_(10),")]),
('mu-m',['C09'],1,[(EM+'MultinomialSupervisedMStep.cpp',"+ mu_ - 1","+ mu_")]),
('C-weight',['C09'],1,[(EM+'FastSupervisedEStep.cpp',"    C_ = C;","    C_ = 1;")]),
('C-half',['C09'],1,[(EU,"psi_gamma + C*(","psi_gamma + C*C*(")]),
('topics-words',['C09'],1,[(LB,"MatrixX::Zero(topics, words)","MatrixX::Zero(words, topics)")]),
('N-ignored',['C09'],1,[(LB,"for (size_t r=0; r<N; r++)","for (size_t r=0; r<30; r++)")]),
('prior',['C09'],1,[(LB,"    model_parameters_->alpha = VectorX::Constant(topics, 1.0 / topics);\n\n    // Allocate","    model_parameters_->alpha = VectorX::Constant(topics, 1.0 / words);\n\n    // Allocate")]),
('from-model',['C09'],1,[(LH,"            model_parameters_->alpha = model->alpha;\n","")]),
('minibatch',['C09'],1,[(EM+'FastOnlineSupervisedMStep.cpp',"    minibatch_size_(minibatch_size),","    minibatch_size_(128),")]),
('weights-shift',['C09'],1,[(LB,"weights[i] = class_weights[i];","weights[i] = class_weights[class_weights.size() - 1 - i];")]),
('weights-copy',['C09'],0,[(LB,"    for (size_t i=0; i<class_weights.size(); i++) {\n        weights[i] = class_weights[i];\n    }","    std::copy(class_weights.begin(), class_weights.end(), weights.data());"),(LB,'#include "ldaplusplus/utils.hpp"','#include <algorithm>\n#include "ldaplusplus/utils.hpp"')]),
('e-while',['C09','C11'],0,[(EM+'SupervisedEStep.cpp',"    for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {\n        // check for early stopping\n        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            break;\n        }","    size_t iterations_left = e_step_iterations_;\n    while (iterations_left-- > 0 && !this->converged(gamma_old, gamma, e_step_tolerance_)) {")]),
('flag-lost',['C11'],1,[(LH,"            set_m(get_multinomial_supervised_m_step(mu));\n            m_requires_eta_ = true;","            m_requires_eta_ = true;\n            set_m(get_multinomial_supervised_m_step(mu));")]),
('flag-and',['C11'],1,[(LH,"(e_requires_eta_ || m_requires_eta_)","(e_requires_eta_ && m_requires_eta_)")]),
('flag-wrong',['C11'],1,[(LH,"                unsupervised_step\n            ));\n            e_requires_eta_ = true;","                unsupervised_step\n            ));\n            m_requires_eta_ = true;")]),
('eta-guard',['C11'],1,[(LB,"    if (topics <= 0) {\n        throw std::runtime_error(\"You need to call initialize_topics_*() \"\n                                 \"before initializing eta\");\n    }\n\n    // Zero","    // Zero")]),
('beta-guard-cols',['C11'],0,[(LH,"            if (model_parameters_->beta.rows() == 0) {","            if (model_parameters_->beta.size() == 0) {")]),
('flags-helper',['C11','C09'],0,[(LH,"            if (\n                model_parameters_->eta.rows() == 0 &&\n                (e_requires_eta_ || m_requires_eta_)\n            ) {","            const bool supervised = e_requires_eta_ || m_requires_eta_;\n            if (supervised && !(model_parameters_->eta.rows() > 0)) {")]),
('sticky',['C11'],1,[(LH,"            e_requires_eta_ = false; // clear require eta because we do not know\n","            // clear require eta because we do not know\n"),(LH,"            e_requires_eta_ = false;\n            return set_e(get_classic","            return set_e(get_classic")]),
]
