P='include/ldaplusplus/events/ProgressEvents.hpp'; A='src/applications/'; EM='src/ldaplusplus/em/'; L='src/ldaplusplus/LDA.cpp'
C=['C22']
SNAP="if (event->id() == \"EpochProgressEvent\") {"
MUTS=[
 ('id-shared',C,1,[(P,'Event("MaximizationProgressEvent")','Event("ExpectationProgressEvent")')]),
 ('id-renamed-one-side',C,1,[(P,'Event("EpochProgressEvent")','Event("EpochEvent")')]),
 ('wrong-id',C,1,[(A+'SnapshotEvery.cpp','"EpochProgressEvent"','"MaximizationProgressEvent"')]),
 ('wrong-class',C,1,[(A+'MaximizationProgress.cpp','events::MaximizationProgressEvent<double>','events::ExpectationProgressEvent<double>')]),
 ('or',C,1,[(A+'SnapshotEvery.cpp','event->id() == "EpochProgressEvent"','event->id() == "EpochProgressEvent" || event->id() == "ExpectationProgressEvent"')]),
 ('not-equal',C,1,[(A+'SnapshotEvery.cpp','event->id() == "EpochProgressEvent"','event->id() != "ExpectationProgressEvent"')]),
 ('float-event',C,1,[(A+'SnapshotEvery.cpp','events::EpochProgressEvent<double>','events::EpochProgressEvent<float>')]),
 ('transform-sup',C,1,[(L,'auto model = std::static_pointer_cast<parameters::ModelParameters<Scalar> >','auto model = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >')]),
 ('unsup-e-sup',C,1,[(EM+'UnsupervisedEStep.cpp','std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta','std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->beta')]),
 ('unsup-m-doc',C,1,[(EM+'UnsupervisedMStep.cpp','    const MatrixX &phi =','    if (std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() < -1) return;\n    const MatrixX &phi =')]),
 ('corr-type',C,1,[(EM+'CorrespondenceSupervisedEStep.cpp','''std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<Scalar> >(
        gamma,
        phi,
        tau''','''std::make_shared<parameters::VariationalParameters<Scalar> >(
        gamma,
        phi''')]),
 ('mult-corr',C,1,[(EM+'MultinomialSupervisedMStep.cpp','std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)','std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<Scalar> >(v_parameters)')]),
 ('swap-params',C,1,[(EM+'FastSupervisedMStep.cpp','std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)->gamma','std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(m_parameters)->gamma')]),
 ('corpus-unlabelled',C,1,[(L,'std::make_shared<corpus::EigenClassificationCorpus>(X, y)','std::make_shared<corpus::EigenCorpus>(X)')]),
 ('precision',C,1,[(EM+'SupervisedMStep.cpp','std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)->gamma;','std::static_pointer_cast<parameters::VariationalParameters<double> >(v_parameters)->gamma.template cast<Scalar>();')]),
 ('ok-early',C,0,[(A+'SnapshotEvery.cpp',SNAP,'if (event->id() != "EpochProgressEvent") return;\n    {')]),
 ('ok-const',C,0,[(A+'SnapshotEvery.cpp',SNAP,'static const std::string wanted("EpochProgressEvent");\n    if (wanted == event->id()) {')]),
 ('ok-compare',C,0,[(A+'SnapshotEvery.cpp',SNAP,'if (event->id().compare("EpochProgressEvent") == 0) {')]),
 ('ok-else',C+['C25'],0,[(A+'SnapshotEvery.cpp',SNAP,'if (event->id() == "ExpectationProgressEvent") {\n    } else if (event->id() == "EpochProgressEvent") {')]),
 ('ok-raw',C,0,[(A+'MaximizationProgress.cpp','std::static_pointer_cast<events::MaximizationProgressEvent<double> >(event)','static_cast<events::MaximizationProgressEvent<double> *>(event.get())')]),
 ('raw-bad',C,1,[(A+'MaximizationProgress.cpp','std::static_pointer_cast<events::MaximizationProgressEvent<double> >(event)','static_cast<events::ExpectationProgressEvent<double> *>(event.get())')]),
 ('ok-hoist',C,0,[(EM+'UnsupervisedEStep.cpp','''    const VectorX &alpha = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->alpha;
    const MatrixX &beta = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta;''','''    auto model = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters);
    const VectorX &alpha = model->alpha;
    const MatrixX &beta = model->beta;''')]),
]
