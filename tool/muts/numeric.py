D='src/ldaplusplus/Document.cpp'; U='include/ldaplusplus/utils.hpp'; EU='src/ldaplusplus/e_step_utils.cpp'; L='src/ldaplusplus/LDA.cpp'
LB='src/ldaplusplus/LDABuilder.cpp'; EM='src/ldaplusplus/em/'
def m(n,c,e,*ed): return (n,[c] if isinstance(c,str) else c,e,list(ed))
ROWS='''        s = x.row(i).sum();
        if (s != 0) {
            x.row(i).array() /= s;
        }'''
COLS=ROWS.replace('row','col')
MUTS=[
 m('rows-noguard','C18',1,(U,ROWS,'        s = x.row(i).sum();\n        x.row(i).array() /= s;')),
 m('cols-noguard','C18',1,(U,COLS,'        s = x.col(i).sum();\n        x.col(i).array() /= s;')),
 m('cols-wrongguard','C18',1,(U,COLS,COLS.replace('s != 0','s >= 0'))),
 m('cols-wrongguard2','C18',1,(U,COLS,COLS.replace('s != 0','s < 1e30'))),
 m('priors','C18',1,(D,'    if (priors_.sum() > 0)\n        priors_','    priors_')),
 m('priors-ge','C18',1,(D,'if (priors_.sum() > 0)','if (priors_.sum() >= 0)')),
 m('sup-ratio','C18',1,(EM+'SupervisedEStep.cpp','std::max(num_words, 1)','num_words')),
 m('sup-ratio0','C18',1,(EM+'SupervisedEStep.cpp','std::max(num_words, 1)','std::max(num_words, 0)')),
 m('fast-ratio','C18',1,(EM+'FastSupervisedEStep.cpp','std::max(num_words, 1)','num_words')),
 m('multi-ratio','C18',1,(EM+'MultinomialSupervisedEStep.cpp','std::max(num_words, 1)','num_words')),
 m('corr-ratio','C18',1,(EM+'CorrespondenceSupervisedEStep.cpp','std::max(num_words, 1)','num_words')),
 m('like-ratio','C18',1,(EU,'std::max(X.sum(), 1);\n    compute_h','X.sum();\n    compute_h')),
 m('supm-N','C18',1,(EM+'SupervisedMStep.cpp','std::max(X.sum(), 1)','X.sum()')),
 m('fastm','C18',1,(EM+'FastSupervisedMStep.cpp','if (words_in_doc != 0) {','{')),
 m('onlinem','C18',1,(EM+'FastOnlineSupervisedMStep.cpp','    if (words_in_doc != 0)\n','')),
 m('phisum','C18',1,(EU,'            if (phi_sum != 0)\n','')),
 m('nowords','C18',1,(EU,'    if (n < 0)\n        return likelihood;\n','')),
 m('nowords1','C18',1,(EU,'    if (n < 0)\n        return likelihood;\n','    if (n < -1)\n        return likelihood;\n')),
 m('phi-div','C18',1,(EU,'''    phi = beta.array().colwise() * exp_psi_gamma;
    //phi = phi.array().rowwise() / phi.colwise().sum().array();
    math_utils::normalize_cols(phi);''','''    phi = beta.array().colwise() * exp_psi_gamma;
    phi = phi.array().rowwise() / phi.colwise().sum().array();''')),
 m('beta-div','C18',1,(EM+'UnsupervisedMStep.cpp','    math_utils::normalize_rows(model->beta);','    model->beta = model->beta.array().colwise() / model->beta.rowwise().sum().array();')),
 m('decision-div','C18',1,(L,'    math_utils::normalize_cols(expected_z_bar);','    for (int i=0; i<expected_z_bar.cols(); i++) expected_z_bar.col(i) /= expected_z_bar.col(i).sum();')),
 m('log-beta','C18',1,(EU,'(beta.array() + 1e-44).log()','beta.array().log()')),
 m('log-phi','C18',1,(EU,'(phi2.array() + 1e-44).log()','phi2.array().log()')),
 m('log-small','C18',1,(EU,'(beta.array() + 1e-44).log()','(beta.array() + 1e-60).log()')),
 m('log-X','C18',1,(EU,'-std::log(std::max(X.sum(), 1))','-std::log(X.sum())')),
 m('gathered','C18',1,(EM+'SupervisedMStep.cpp','    if (docs_ == 0)','    if (docs_ < 0)')),
 m('R-s>0','C18',0,(U,ROWS,ROWS.replace('s != 0','s > 0')),(U,COLS,COLS.replace('s != 0','s > 0'))),
 m('R-cont','C18',0,(U,COLS,'        s = x.col(i).sum();\n        if (s == 0)\n            continue;\n        x.col(i).array() /= s;')),
 m('R-not','C18',0,(U,COLS,COLS.replace('s != 0','!(s == 0)'))),
 m('R-tern','C18',0,(U,COLS,'        s = x.col(i).sum();\n        x.col(i).array() /= (s != 0 ? s : 1);')),
 m('R-recip','C18',0,(U,COLS,'        s = x.col(i).sum();\n        if (s != 0) {\n            x.col(i).array() *= 1 / s;\n        }')),
 m('R-helper','C18',0,(U,COLS,'        normalize_part(x.col(i));'),(U,'/**\n * Normalize in place a matrix of row','template <typename Part>\nvoid normalize_part(Part p) {\n    auto s = p.sum();\n    if (s != 0) {\n        p.array() /= s;\n    }\n}\n\n/**\n * Normalize in place a matrix of row')),
 m('R-tern2','C18',0,(EM+'SupervisedEStep.cpp','std::max(num_words, 1)','(num_words > 0 ? num_words : 1)')),
 m('R-var','C18',0,(EM+'SupervisedEStep.cpp','    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);','    int total = num_words;\n    if (total == 0)\n        total = 1;\n    VectorX X_ratio = X.cast<Scalar>() / total;')),
 m('R-var2','C18',0,(EM+'SupervisedEStep.cpp','    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);','    VectorX X_ratio = VectorX::Zero(X.rows());\n    if (num_words > 0)\n        X_ratio = X.cast<Scalar>() / num_words;')),
 m('R-prior','C18',0,(D,'    if (priors_.sum() > 0)\n        priors_.array() /= priors_.sum();','    const auto labelled = priors_.sum();\n    if (labelled > 0)\n        priors_.array() /= labelled;')),
 m('R-n','C18',0,(EU,'''    if (n < 0)
        return likelihood;

    likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
    likelihood += - std::log((h.transpose() * phi.col(n)).value());

    return likelihood;''','''    if (n >= 0) {
        likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
        likelihood += - std::log((h.transpose() * phi.col(n)).value());
    }

    return likelihood;''')),
 m('R-n2','C18',0,(EU,'''    int n;
    for (n=X.rows()-1; n>=0; n--) {
        // skip words that no topic emits, like when computing h
        if (X[n] > 0 && phi.col(n).sum() > 0)
            break;
    }''','''    int n = X.rows() - 1;
    while (n >= 0 && (X[n] <= 0 || phi.col(n).sum() <= 0))
        n--;''')),
 m('n3','C18',1,(EU,'''    for (n=X.rows()-1; n>=0; n--) {
        // skip words that no topic emits, like when computing h
        if (X[n] > 0 && phi.col(n).sum() > 0)
            break;
    }
    // documents without words carry no information about their class
    if (n < 0)
        return likelihood;
''','''    if (X.sum() == 0)
        return likelihood;
    for (n=X.rows()-1; n>=0; n--) {
        // skip words that no topic emits, like when computing h
        if (X[n] > 0 && phi.col(n).sum() > 0)
            break;
    }
''')),
 m('R-phisum','C18',0,(EU,'''            Scalar phi_sum = phi.col(n).sum();
            if (phi_sum != 0)
                phi.col(n).array() /= phi_sum;''','''            Scalar phi_sum = phi.col(n).sum();
            if (phi_sum == 0)
                continue;
            phi.col(n) = phi.col(n) / phi_sum;''')),
 m('R-log','C18',0,(EU,'(beta.array() + 1e-44).log()','(1e-40 + beta.array()).log()')),
 m('R-log2','C18',0,(EU,'''    likelihood += (phi_scaled * (beta.array() + 1e-44).log()).sum();''','''    MatrixX<Scalar> log_beta = (beta.array() + 1e-44).log();
    likelihood += (phi_scaled * log_beta.array()).sum();''')),
 m('R-decision','C18',0,(L,'    math_utils::normalize_cols(expected_z_bar);','    for (int i=0; i<expected_z_bar.cols(); i++) {\n        auto total = expected_z_bar.col(i).sum();\n        if (total != 0)\n            expected_z_bar.col(i) /= total;\n    }')),
 m('R-fastm','C18',0,(EM+'FastSupervisedMStep.cpp','if (words_in_doc != 0) {','if (words_in_doc > 0) {')),
 m('R-max','C18',0,(EM+'SupervisedMStep.cpp','std::max(X.sum(), 1)','std::max<Scalar>(1, X.sum())')),
 m('unseen','C18',1,(EU,'X[n] == 0 || beta.col(n).sum() == 0','X[n] == 0')),
 m('unseen-row','C18',1,(EU,'X[n] == 0 || beta.col(n).sum() == 0','X[n] == 0 && beta.col(n).sum() == 0')),
 m('unseen-h','C18',1,(EU,'X[n] > 0 && phi.col(n).sum() > 0','X[n] > 0')),
 m('R-unseen','C18',0,(EU,'''        if (X[n] == 0 || beta.col(n).sum() == 0)
            continue;
''','''        if (X[n] == 0)
            continue;
        const Scalar emitted = beta.col(n).sum();
        if (!(emitted > 0))
            continue;
''')),
]
