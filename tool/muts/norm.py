U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'; L='src/ldaplusplus/LDA.cpp'
LB='src/ldaplusplus/LDABuilder.cpp'; EM='src/ldaplusplus/em/'
def m(n,e,*ed): return (n,['C26'],e,list(ed))
ROWS='''        s = x.row(i).sum();
        if (s != 0) {
            x.row(i).array() /= s;
        }'''
COLS=ROWS.replace('row','col')
UM=EM+'UnsupervisedMStep.cpp'; ON=EM+'FastOnlineSupervisedMStep.cpp'; MM=EM+'MultinomialSupervisedMStep.cpp'; CM=EM+'CorrespondenceSupervisedMStep.cpp'
NB='    math_utils::normalize_rows(model->beta);\n'
SEED='        model_parameters_->beta.row(k) = model_parameters_->beta.row(k) / model_parameters_->beta.row(k).sum();\n'
UP='''    phi = beta.array().colwise() * exp_psi_gamma;
    //phi = phi.array().rowwise() / phi.colwise().sum().array();
    math_utils::normalize_cols(phi);'''
PS='''            Scalar phi_sum = phi.col(n).sum();
            if (phi_sum != 0)
                phi.col(n).array() /= phi_sum;
'''
CG='''    gamma = alpha;
    math_utils::sum_cols_scaled(phi, X, gamma);'''
UE=EM+'UnsupervisedEStep.cpp'
PHI='        e_step_utils::compute_unsupervised_phi<Scalar>(beta, gamma, phi);\n'
GAM='        e_step_utils::compute_gamma<Scalar>(X, alpha, phi, gamma);\n'
CONV='''    beta.array() = (
        beta_weight_ * beta.array() +
        (1-beta_weight_) * new_beta.array()
    );'''
MUTS=[
 m('um-none',1,(UM,NB,'')),
 m('um-cols',1,(UM,NB,NB.replace('rows','cols'))),
 m('um-b',1,(UM,'    model->beta = b_;\n'+NB,'    math_utils::normalize_rows(model->beta);\n    model->beta = b_;\n')),
 m('um-smooth',1,(UM,NB,NB+'    model->beta.row(0).array() += 1e-3;\n')),
 m('um-smooth2',1,(UM,NB,NB+'    for (int k=0; k<model->beta.rows(); k++) model->beta(k, 0) += 0.001;\n')),
 m('mm-eta',1,(MM,'    math_utils::normalize_rows(model->eta);\n','')),
 m('mm-etac',1,(MM,'math_utils::normalize_rows(model->eta);','math_utils::normalize_cols(model->eta);')),
 m('cm-etac',1,(CM,'math_utils::normalize_rows(model->eta);','math_utils::normalize_cols(model->eta);')),
 m('cm-beta',1,(CM,'math_utils::normalize_rows(model->beta);','math_utils::normalize_cols(model->beta);')),
 m('rows-partial',1,(U,'''    for (int i=0; i<x.rows(); i++) {
        s = x.row(i).sum();''','''    for (int i=1; i<x.rows(); i++) {
        s = x.row(i).sum();''')),
 m('rows-total',1,(U,ROWS,ROWS.replace('x.row(i).sum()','x.sum()'))),
 m('rows-gt1',1,(U,ROWS,ROWS.replace('s != 0','s > 1'))),
 m('rows-colcount',1,(U,'''    for (int i=0; i<x.rows(); i++) {
        s = x.row(i).sum();''','''    for (int i=0; i<x.cols(); i++) {
        s = x.row(i).sum();''')),
 m('cols-partial',1,(U,'''    for (int i=0; i<x.cols(); i++) {
        s = x.col(i).sum();''','''    for (int i=0; i<x.cols()-1; i++) {
        s = x.col(i).sum();''')),
 m('on-weights',1,(ON,CONV,CONV.replace('(1-beta_weight_)','beta_weight_'))),
 m('on-weights2',1,(ON,CONV,CONV.replace('(1-beta_weight_) * ',''))),
 m('on-norm',1,(ON,'    math_utils::normalize_rows(new_beta);\n','')),
 m('on-normold',1,(ON,'    math_utils::normalize_rows(new_beta);\n','    math_utils::normalize_cols(new_beta);\n')),
 m('seed-none',1,(LB,SEED,'')),
 m('seed-col',1,(LB,SEED,SEED.replace('beta.row(k).sum()','beta.sum()'))),
 m('seed-plus',1,(LB,SEED,SEED+'        model_parameters_->beta.row(k).array() += 1.0;\n')),
 m('random',1,(LB,'math_utils::normalize_rows(model_parameters_->beta)','math_utils::normalize_cols(model_parameters_->beta)')),
 m('random-none',1,(LB,'    math_utils::normalize_rows(model_parameters_->beta);\n','')),
 m('etaunif',1,(LB,'1.0 / num_classes','1.0 / topics')),
 m('up-rows',1,(EU,UP,UP.replace('    math_utils::normalize_cols(phi);','    math_utils::normalize_rows(phi);'))),
 m('up-none',1,(EU,UP,'    phi = beta.array().colwise() * exp_psi_gamma;')),
 m('up-axis',1,(EU,UP,'    phi = beta.array().colwise() * exp_psi_gamma;\n    phi = phi.array().colwise() / phi.rowwise().sum().array().eval();')),
 m('ue-init',1,(UE,'1.0/num_topics)','1.0/X.rows())')),
 m('sup-div',1,(EU,PS,PS.replace('phi.col(n).sum()','phi.sum()'))),
 m('sup-guard',1,(EU,PS,PS.replace('phi_sum != 0','phi_sum > 1'))),
 m('sup-none',1,(EU,PS,'')),
 m('tau-none',1,(EU,'    math_utils::normalize_cols(tau);','')),
 m('g-noalpha',1,(EU,CG,CG.replace('gamma = alpha;','gamma.fill(0);'))),
 m('g-acc',1,(EU,CG,CG.replace('    gamma = alpha;\n',''))),
 m('g-noweight',1,(U,'result += y[i] * x.col(i);','result += x.col(i);')),
 m('g-idx',1,(U,'result += y[i] * x.col(i);','result += y[0] * x.col(i);')),
 m('g-short',1,(U,'''    for (int i=0; i<x.cols(); i++) {
        // this is done''','''    for (int i=0; i<x.cols()-1; i++) {
        // this is done''')),
 m('g-order',1,(UE,GAM,''),(UE,PHI,GAM+PHI)),
 # same behaviour
 m('ok-array','0',(EU,UP,'    phi = beta.array().colwise() * exp_psi_gamma;\n    phi = phi.array().rowwise() / phi.colwise().sum().array().eval();')),
 m('ok-neg',0,(U,ROWS,'''        s = x.row(i).sum();
        if (s == 0)
            continue;
        x.row(i) = x.row(i) / s;''')),
 m('ok-inline',0,(UM,NB,'''    for (int k=0; k<model->beta.rows(); k++) {
        Scalar total = model->beta.row(k).sum();
        if (total > 0)
            model->beta.row(k) /= total;
    }
''')),
 m('ok-entry',0,(UM,NB,'''    for (int k=0; k<model->beta.rows(); k++) {
        Scalar total = model->beta.row(k).sum();
        if (total == 0) continue;
        for (int w=0; w<model->beta.cols(); w++)
            model->beta(k, w) /= total;
    }
''')),
 m('ok-entrysum',0,(UM,NB,'''    for (int k=0; k<model->beta.rows(); k++) {
        Scalar total = 0;
        for (int w=0; w<model->beta.cols(); w++)
            total += model->beta(k, w);
        if (total == 0) continue;
        for (int w=0; w<model->beta.cols(); w++)
            model->beta(k, w) /= total;
    }
''')),
 m('ok-first',0,(UM,'    model->beta = b_;\n'+NB,'    math_utils::normalize_rows(b_);\n    model->beta = b_;\n')),
 m('ok-swap',0,(UM,'    model->beta = b_;\n'+NB,'    MatrixX fresh = b_;\n    math_utils::normalize_rows(fresh);\n    model->beta.swap(fresh);\n')),
 m('ok-down',0,(U,'''    for (int i=0; i<x.rows(); i++) {
        s = x.row(i).sum();''','''    for (int i=x.rows()-1; i>=0; i--) {
        s = x.row(i).sum();''')),
 m('ok-while',0,(U,'''    for (int i=0; i<x.cols(); i++) {
        s = x.col(i).sum();
        if (s != 0) {
            x.col(i).array() /= s;
        }
    }''','''    int i = 0;
    while (i < x.cols()) {
        s = x.col(i).sum();
        if (s != 0)
            x.col(i) /= s;
        ++i;
    }''')),
 m('ok-conv',0,(ON,CONV,'    beta = new_beta + beta_weight_ * (beta - new_beta);')),
 m('ok-conv2',0,(ON,CONV,'    beta *= beta_weight_;\n    beta += (1 - beta_weight_) * new_beta;')),
 m('ok-seed',0,(LB,SEED,'        auto topic = model_parameters_->beta.row(k);\n        topic /= topic.sum();\n')),
 m('ok-seed2',0,(LB,SEED,'        Scalar total = model_parameters_->beta.row(k).sum();\n        model_parameters_->beta.row(k) *= 1 / total;\n')),
 m('ok-seed3',0,(LB,SEED,''),(LB,'''    return *this;
}

template <typename Scalar>
LDABuilder<Scalar> & LDABuilder<Scalar>::initialize_topics_random(''','''    math_utils::normalize_rows(model_parameters_->beta);
    return *this;
}

template <typename Scalar>
LDABuilder<Scalar> & LDABuilder<Scalar>::initialize_topics_random(''')),
 m('ok-tau',0,(EU,'    math_utils::normalize_cols(tau);','    Scalar tau_sum = tau.sum();\n    if (tau_sum != 0)\n        tau /= tau_sum;')),
 m('ok-gamma',0,(EU,CG,'    gamma = alpha + phi * X.cast<Scalar>();')),
 m('ok-gamma2',0,(EU,CG,'    gamma = alpha;\n    for (int n=0; n<X.rows(); n++)\n        if (X[n] != 0)\n            gamma += phi.col(n) * X[n];')),
 m('ok-gamma3',0,(EU,CG,'    gamma.setZero();\n    math_utils::sum_cols_scaled(phi, X, gamma);\n    gamma += alpha;')),
 m('ok-phisum',0,(EU,PS,'''            if (phi.col(n).sum() > 0)
                phi.col(n) = phi.col(n) / phi.col(n).sum();
''')),
 m('ok-phitemp',0,(EU,UP,'''    MatrixX<Scalar> t = beta.array().colwise() * exp_psi_gamma;
    math_utils::normalize_cols(t);
    phi = t;''')),
]
