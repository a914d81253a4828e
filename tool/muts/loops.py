U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'; L='src/ldaplusplus/LDA.cpp'; EM='src/ldaplusplus/em/'
GD='include/ldaplusplus/optimization/GradientDescent.hpp'; AE=EM+'AbstractEStep.cpp'
def m(n,c,e,*ed): return (n,[c] if isinstance(c,str) else c,e,list(ed))
H='for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {'
CV='''        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
            break;
        }
        gamma_old = gamma;
'''
UE=EM+'UnsupervisedEStep.cpp'; SE=EM+'SupervisedEStep.cpp'; FM=EM+'FastSupervisedMStep.cpp'; SM=EM+'SupervisedMStep.cpp'; FE=EM+'FastSupervisedEStep.cpp'
CE=EM+'CorrespondenceSupervisedEStep.cpp'; ME=EM+'MultinomialSupervisedEStep.cpp'
RET='''            return (
                iterations < m_step_iterations_ &&
                relative_improvement > m_step_tolerance_
            );'''
MUTS=[
 m('le','C20',1,(UE,H,H.replace('<e_','<=e_'))),
 m('from1','C20',1,(FE,H,H.replace('iteration=0','iteration=1'))),
 m('nolimit','C20',1,(SE,H,'while (true) {')),
 m('fixed','C20',1,(ME,H,'for (size_t iteration=0; iteration<10; iteration++) {')),
 m('extra-exit','C20',1,(CE,H,H+'\n        if (gamma.minCoeff() > 100)\n            break;')),
 m('dir','C20',1,(AE,'return mean_change < tolerance;','return mean_change > tolerance;')),
 m('sync','C20',1,(UE,CV,CV.replace('        gamma_old = gamma;\n','')),(UE,'(X, alpha, phi, gamma);\n    }','(X, alpha, phi, gamma);\n        gamma_old = gamma;\n    }')),
 m('noold','C20',1,(UE,CV,CV.replace('        gamma_old = gamma;\n',''))),
 m('self','C20',1,(UE,CV,CV.replace('converged(gamma_old, gamma','converged(gamma, gamma'))),
 m('fp','C20',1,(EU,'i<fixed_point_iterations','i<=fixed_point_iterations')),
 m('mle','C20',1,(FM,'iterations < m_step','iterations <= m_step')),
 m('mor','C20',1,(FM,'m_step_iterations_ &&','m_step_iterations_ ||')),
 m('mdir','C20',1,(SM,'relative_improvement > m_step','relative_improvement < m_step')),
 m('mnolimit','C20',1,(SM,'iterations < m_step_iterations_ &&','')),
 m('noinc','C20',1,(GD,'iterations++)','iterations)')),
 m('reset','C20',1,(GD,'problem.gradient(x0, grad);','problem.gradient(x0, grad);\n                iterations = 1;')),
 m('passes','C20',1,(L,'i<iterations_','i<=iterations_')),
 m('passes2','C20',1,(L,'for (size_t i=0; i<iterations_','for (size_t i=1; i<iterations_')),
 m('unsigned','C20',1,(EU,'for (int n=X.rows()-1; n>=0; n--) {\n        // Skip this word if it is not in the document or no topic emits it\n        if (X[n] == 0 || phi.col(n).sum() == 0)\n            continue;\n\n        exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);\n        //exp_eta_scaled = (eta * X_ratio[n]).array().exp();\n\n        // Remove','for (int n=X.rows()-1; n>=0; ) {\n        // Skip this word if it is not in the document or no topic emits it\n        if (X[n] == 0 || phi.col(n).sum() == 0)\n            continue;\n        n--;\n        exp_eta_scaled = (eta * X_ratio[n+1]).unaryExpr(cwise_fast_exp);\n        // Remove')),
 m('halve','C20',1,(U,'x = x/2;\n','')),
 m('R-while','C20',0,(UE,H,'size_t iteration = 0;\n    while (iteration < e_step_iterations_) {\n        iteration++;')),
 m('R-down','C20',0,(UE,H,'for (size_t left=e_step_iterations_; left>0; left--) {')),
 m('R-cond','C20',0,(UE,H,'for (size_t iteration=0; iteration<e_step_iterations_ && !this->converged(gamma_old, gamma, e_step_tolerance_); iteration++) {'),(UE,CV,'        gamma_old = gamma;\n')),
 m('R-inl','C20',0,(UE,'this->converged(gamma_old, gamma, e_step_tolerance_)','(gamma - gamma_old).array().abs().sum() < e_step_tolerance_ * gamma.rows()')),
 m('R-mean','C20',0,(AE,'    Scalar mean_change = (gamma_old - gamma).array().abs().sum() / gamma.rows();\n\n    return mean_change < tolerance;','    return (gamma - gamma_old).cwiseAbs().mean() < tolerance;')),
 m('R-not','C20',0,(AE,'return mean_change < tolerance;','return !(mean_change >= tolerance);')),
 m('R-ret','C20',0,(FM,RET,'''            if (iterations >= m_step_iterations_)
                return false;

            return relative_improvement > m_step_tolerance_;''')),
 m('R-ret2','C20',0,(FM,RET,'''            bool more = iterations < m_step_iterations_;
            bool improving = relative_improvement > m_step_tolerance_;
            return more && improving;''')),
 m('R-gd','C20',0,(GD,'''            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x0, grad, grad);
            }''','''            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations)) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x0, grad, grad);
                iterations++;
            }''')),
 m('R-gd2','C20',0,(GD,'''            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                problem''','''            for (;;) {
                if (!progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations))
                    break;
                iterations++;
                problem''')),
 m('R-passes','C20',0,(L,'for (size_t i=0; i<iterations_; i++)','for (size_t left=iterations_; left != 0; --left)')),
 m('R-fp','C20',0,(EU,'for (size_t i=0; i<fixed_point_iterations; i++)','for (size_t i=1; i<=fixed_point_iterations; i++)')),
 m('R-bottom','C20',0,(UE,CV,'        gamma_old = gamma;\n'),(UE,'(X, alpha, phi, gamma);\n    }','(X, alpha, phi, gamma);\n        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {\n            break;\n        }\n    }')),
 m('R-helper','C20',0,(UE,H,'auto stop = [&]() { return this->converged(gamma_old, gamma, e_step_tolerance_); };\n    '+H),(UE,'this->converged(gamma_old, gamma, e_step_tolerance_)) {','stop()) {')),
]
