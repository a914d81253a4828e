EM='src/ldaplusplus/em/'
U=EM+'UnsupervisedMStep.cpp';F=EM+'FastSupervisedMStep.cpp';S=EM+'SupervisedMStep.cpp';O=EM+'FastOnlineSupervisedMStep.cpp';M=EM+'MultinomialSupervisedMStep.cpp';X=EM+'CorrespondenceSupervisedMStep.cpp';SS=EM+'SemiSupervisedMStep.cpp'
c=['C08']
MUTS=[
('no-clear',c,1,[(U,"    b_.fill(0);\n","")]),
('clear-first',c,1,[(U,"    model->beta = b_;\n","    b_.fill(0);\n    model->beta = b_;\n")]),
('overwrite',c,1,[(U,"    b_.array() += t2;","    b_.array() = t2;")]),
('realloc',c,1,[(U,"    if (b_.rows() == 0)\n","    if (b_.rows() == 0 || b_.cols() != 7)\n")]),
('realloc2',c,1,[(U,"    if (b_.rows() == 0)\n","")]),
('cond-clear',c,1,[(U,"    b_.fill(0);\n","    if (b_.sum() > 1e6)\n        b_.fill(0);\n")]),
('cond-use',c,1,[(F,"    // Maximize w.r.t \\beta during\n","    if (docs_ == 0)\n        return;\n")]),
('decay',c,1,[(U,"    b_.fill(0);\n","    b_ *= 0.5;\n")]),
('h-no-clear',c,1,[(M,"    h_.fill(0);\n","")]),
('h-no-clear-x',c,1,[(X,"    h_.fill(0);\n","")]),
('log-no-clear',c,1,[(M,"    h_.fill(0);\n    log_py_ = 0;\n","    h_.fill(0);\n")]),
('h-over',c,1,[(M,"h_.col(y) += phi_scaled_sum_;","h_.col(y) = phi_scaled_sum_;")]),
('h-twice',c,1,[(M,"    h_.col(y) += phi_scaled_sum_;","    h_.col(y) += phi_scaled_sum_;\n    if (y == 0) h_.col(y) += phi_scaled_sum_;")]),
('docs-no-reset',c,1,[(F,"    docs_ = 0;\n","")]),
('docs-no-reset-s',c,1,[(S,"    docs_ = 0;\n","")]),
('docs-reset-early',c,1,[(F,"    y_.conservativeResize(docs_);","    docs_ = 0;\n    y_.conservativeResize(docs_);")]),
('no-trunc',c,1,[(F,"    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);\n    docs_","    docs_")]),
('no-trunc-y',c,1,[(S,"    y_.conservativeResize(docs_);\n    expected","    expected")]),
('no-advance',c,1,[(F,"    docs_ += 1;\n","    if (words_in_doc != 0)\n        docs_ += 1;\n")]),
('slot0',c,1,[(F,"    expected_z_bar_.col(docs_) = gamma - alpha;","    expected_z_bar_.col(0) = gamma - alpha;")]),
('skip-doc',c,1,[(U,"    b_.array() += t2;","    if (b_.cols() < 100000)\n        b_.array() += t2;")]),
('mb-gt',c,1,[(O,"    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step","    if (docs_seen_so_far_ > minibatch_size_)\n        m_step")]),
('mb-early',c,1,[(O,"    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step","    if (docs_seen_so_far_ + 1 >= minibatch_size_)\n        m_step"),(O,"    if (docs_seen_so_far_ < minibatch_size_)\n        return;","    if (docs_seen_so_far_ + 1 < minibatch_size_)\n        return;")]),
('mb-noguard',c,1,[(O,"    if (docs_seen_so_far_ < minibatch_size_)\n        return;\n","")]),
('mb-noreset',c,1,[(O,"    docs_seen_so_far_ = 0;\n\n    // Extract","    // Extract")]),
('mb-reset1',c,1,[(O,"    docs_seen_so_far_ = 0;\n\n    // Extract","    docs_seen_so_far_ -= minibatch_size_ - 1;\n\n    // Extract")]),
('mb-slot',c,1,[(O,"    y_(docs_seen_so_far_) = y;\n\n    // mark another document as seen\n    docs_seen_so_far_++;","    docs_seen_so_far_++;\n    y_(docs_seen_so_far_) = y;\n")]),
('mb-cond',c,1,[(O,"    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step","    if (docs_seen_so_far_ >= minibatch_size_ && words_in_doc != 0)\n        m_step")]),
('mb-room',c,1,[(O,"MatrixX::Zero(phi.rows(), minibatch_size_);","MatrixX::Zero(phi.rows(), minibatch_size_ + 1);")]),
('mb-alloc',c,1,[(O,"    if (b_.rows() == 0) {","    if (b_.rows() == 0 || docs_seen_so_far_ > 1000) {")]),
('r-setzero',c,0,[(U,"    b_.fill(0);\n","    b_.setZero();\n")]),
('r-zero',c,0,[(U,"    b_.fill(0);\n","    b_ = MatrixX::Zero(b_.rows(), b_.cols());\n")]),
('r-resize0',c,0,[(U,"    b_.fill(0);\n","    b_.resize(0, 0);\n")]),
('r-swap',c,0,[(U,"    model->beta = b_;\n","    MatrixX stats = b_;\n    b_.setZero();\n    model->beta = stats;\n"),(U,"    b_.fill(0);\n","")]),
('r-sum',c,0,[(U,"    b_.array() += t2;","    b_ = b_ + MatrixX(t2.matrix());")]),
('r-rowloop',c,0,[(U,"    b_.array() += t2;","    for (int i=0; i<b_.rows(); i++)\n        b_.row(i).array() += t2.row(i);")]),
('r-empty',c,0,[(U,"    b_.array() += t2;","    if (X.sum() == 0)\n        return;\n    b_.array() += t2;")]),
('r-docs-late',c,0,[(F,"    docs_ = 0;\n",""),(F,"    minimizer.minimize(mlr, eta);\n","    minimizer.minimize(mlr, eta);\n    docs_ = 0;\n")]),
('r-incr',c,0,[(F,"    docs_ += 1;\n","    ++docs_;\n"),(O,"    docs_seen_so_far_++;","    docs_seen_so_far_ = docs_seen_so_far_ + 1;")]),
('r-mb-eq',c,0,[(O,"    if (docs_seen_so_far_ >= minibatch_size_)\n        m_step(m_parameters);","    bool full = !(docs_seen_so_far_ < minibatch_size_);\n    if (full) {\n        m_step(m_parameters);\n    }")]),
('r-mb-late',c,0,[(O,"    docs_seen_so_far_ = 0;\n\n    // Extract","    // Extract"),(O,"    eta += eta_velocity_;\n","    eta += eta_velocity_;\n    docs_seen_so_far_ = 0;\n")]),
('r-clear-after-empty',c,0,[(F,"    if (docs_ == 0)\n        return;\n","    const auto n = docs_;\n    if (n == 0)\n        return;\n")]),
('r-truncate-views',c,0,[(F,"    y_.conservativeResize(docs_);\n    expected_z_bar_.conservativeResize(expected_z_bar_.rows(), docs_);\n    docs_ = 0;\n","    const Eigen::VectorXi labels = y_.head(docs_);\n    const MatrixX features = expected_z_bar_.leftCols(docs_);\n    docs_ = 0;\n"),(F,"mlr(expected_z_bar_, y_, reg","mlr(features, labels, reg")]),
('r-init-order',c,0,[(M,"    b_.fill(0);\n    h_.fill(0);\n    log_py_ = 0;\n","    log_py_ = 0;\n    h_.setZero();\n    b_.setZero();\n")]),
]
