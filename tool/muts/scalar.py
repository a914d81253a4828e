EM='src/ldaplusplus/em/'; EU='src/ldaplusplus/e_step_utils.cpp'; A='src/applications/'
C=['C23']
MUTS=[
 ('class-float',C,1,[(EM+'SemiSupervisedMStep.cpp','template class SemiSupervisedMStep<float>;','')]),
 ('class-double-twice',C,1,[(EM+'CorrespondenceSupervisedMStep.cpp','template class CorrespondenceSupervisedMStep<float>;','')]),
 ('fn-missing',C,1,[(EU,'''template void compute_unsupervised_phi(
    const MatrixX<float> & beta,
    const VectorX<float> & gamma,
    Ref<MatrixX<float> > phi
);''','')]),
 ('float-local',C,1,[(EM+'UnsupervisedEStep.cpp','VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;','VectorX gamma = alpha.array() + static_cast<Scalar>(static_cast<float>(alpha(0)*0) + static_cast<Scalar>(num_words)/num_topics);')]),
 ('cast-float',C,1,[(EM+'UnsupervisedMStep.cpp','    const MatrixX &phi =','    b_ = b_.template cast<float>().template cast<Scalar>().eval();\n    const MatrixX &phi =')]),
 ('epoch-float',C,1,[(A+'EpochProgress.cpp','likelihood_ += progress->likelihood();','float l = progress->likelihood();\n        likelihood_ += l;')]),
 ('int-value',C,1,[(EM+'FastSupervisedEStep.cpp','get_weight() {','get_weight() {\n    int whole = C_;\n    if (whole > 10) return whole;')]),
 ('ok-index',C,0,[('include/ldaplusplus/utils.hpp','x = exp_lut[static_cast<int>(x*1024)];','const int pos = static_cast<int>(x*1024);\n    x = exp_lut[pos];')]),
 ('ok-static',C,0,[(EM+'UnsupervisedEStep.cpp','VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;','const Scalar share = static_cast<Scalar>(num_words)/num_topics;\n    VectorX gamma = alpha.array() + share;')]),
 ('ok-literal',C,0,[(EM+'UnsupervisedEStep.cpp','VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;','const Scalar one = 1.0f;\n    VectorX gamma = alpha.array() + one*static_cast<Scalar>(num_words)/num_topics;')]),
]
MUTS=[m for m in MUTS if m[3]]
