EV='src/ldaplusplus/events/Events.cpp'; EM='src/ldaplusplus/em/'; EH='include/ldaplusplus/em/'; EU='src/ldaplusplus/e_step_utils.cpp'; OP='src/ldaplusplus/optimization/'; OH='include/ldaplusplus/optimization/'
D='src/ldaplusplus/Document.cpp'; DH='include/ldaplusplus/Document.hpp'; SS=EM+'SemiSupervisedEStep.cpp'; UM=EM+'UnsupervisedMStep.cpp'
def m(n,e,*ed): return (n,['C27'],e,list(ed))
COPY='''    // iterate over a copy because the listeners may add or remove listeners
    auto listeners = listeners_;

    for (auto l : listeners) {'''
TS='''        l = listeners_.erase(l);'''
MUTS=[
 m('live',1,(EV,COPY,'    for (auto l : listeners_) {')),
 ('live05',['C05'],1,[(EV,COPY,'    for (auto l : listeners_) {')]),
 m('liveref',1,(EV,COPY,'    auto &listeners = listeners_;\n\n    for (auto l : listeners) {')),
 ('ts-live',['C05','C27'],1,[(EV,'''        for (auto l : listeners) {
            l->on_event(ev);''','''        for (auto l : listeners_) {
            l->on_event(ev);''')]),
 m('erase',1,(EV,'                l = listeners_.erase(l);\n            } else {\n                l++;\n            }','                listeners_.erase(l);\n            }\n            l++;')),
 m('erase2',1,(EV,'                l = listeners_.erase(l);\n            } else {\n                l++;\n            }','                listeners_.erase(l);\n                l++;\n            } else {\n                l++;\n            }')),
 m('nobreak',1,(EV,'            listeners_.erase(it);\n            break;','            listeners_.erase(it);')),
 m('retref',1,(UM,'    model->beta = b_;\n','    model->beta = b_;\n'),(D,'int EigenClassificationCorpus','int EigenClassificationCorpus')) if False else
 m('nodtor',1,(SS,'''template <typename Scalar>
SemiSupervisedEStep<Scalar>::~SemiSupervisedEStep() {
    supervised_step_->get_event_dispatcher()->remove_listener(event_forwarder_);
    unsupervised_step_->get_event_dispatcher()->remove_listener(event_forwarder_);
}
''',''),(EH+'SemiSupervisedEStep.hpp','~SemiSupervisedEStep();','~SemiSupervisedEStep() = default;')),
 m('halfdtor',1,(SS,'    unsupervised_step_->get_event_dispatcher()->remove_listener(event_forwarder_);\n}','}')),
 m('capture',1,(SS,'[this](std::shared_ptr<events::Event> event) {\n            this->get_event_dispatcher()','[this, &supervised_step](std::shared_ptr<events::Event> event) {\n            if (supervised_step) this->get_event_dispatcher()')),
 m('lazy',1,(EU,'auto psi_gamma = gamma.unaryExpr(cwise_digamma).array();','auto psi_gamma = VectorX<Scalar>(gamma.unaryExpr(cwise_digamma)).array();')),
 m('lazy2',1,(EU,'auto t1 = gamma.unaryExpr(cwise_digamma).array();\n    auto t2','auto t1 = gamma.unaryExpr(cwise_digamma).eval().array();\n    auto t2')),
 m('byvalue',1,(OP+'MultinomialLogisticRegression.cpp','    const MatrixX &X,\n    const Eigen::VectorXi &y,\n    VectorX Cy','    const MatrixX &X,\n    Eigen::VectorXi y,\n    VectorX Cy'),(OH+'MultinomialLogisticRegression.hpp','__','__')) if False else
 m('words',1,(D,'const Eigen::VectorXi & EigenDocument::get_words() const {\n    return X_;','const Eigen::VectorXi & EigenDocument::get_words() const {\n    Eigen::VectorXi words = X_;\n    return words;')),
 m('temp-x',1,(EM+'FastOnlineSupervisedMStep.cpp','        expected_z_bar_,\n        y_,','        MatrixX(expected_z_bar_.cwiseAbs()),\n        y_,')),
 # behaviour kept
 m('r-copyctor',0,(EV,COPY,'    std::list<std::shared_ptr<EventListenerInterface> > listeners(listeners_.begin(), listeners_.end());\n\n    for (const auto &l : listeners) {')),
 m('r-postinc',0,(EV,'                l = listeners_.erase(l);','                listeners_.erase(l++);')),
 m('r-next',0,(EV,'                l = listeners_.erase(l);','                auto next = listeners_.erase(l);\n                l = next;')),
 m('r-return',0,(EV,'            listeners_.erase(it);\n            break;','            listeners_.erase(it);\n            return;')),
 m('r-eval',0,(EU,'auto psi_gamma = gamma.unaryExpr(cwise_digamma).array();','VectorX<Scalar> psi_gamma_v = gamma.unaryExpr(cwise_digamma);\n    auto psi_gamma = psi_gamma_v.array();')),
 m('r-cap',0,(SS,'[this](std::shared_ptr<events::Event> event) {','[this, supervised_step](std::shared_ptr<events::Event> event) {')),
 ('r-dtor',['C27','C05'],0,[(SS,'    supervised_step_->get_event_dispatcher()->remove_listener(event_forwarder_);\n    unsup','    for (auto s : {supervised_step_, unsupervised_step_})\n        s->get_event_dispatcher()->remove_listener(event_forwarder_);\n    //unsup')]),
 m('r-local',0,(EM+'FastOnlineSupervisedMStep.cpp','        expected_z_bar_,\n        y_,','        z_bar,\n        y_,'),(EM+'FastOnlineSupervisedMStep.cpp','    // update the eta\n','    MatrixX z_bar = expected_z_bar_;\n')),
]
