FS = 'src/applications/fslda.cpp'
L = 'src/applications/lda.cpp'
S = 'src/applications/slda.cpp'
SN = 'src/applications/SnapshotEvery.cpp'
MUTS = [
 ('swap-tol-weight', ['C10'], 1, [(FS, 'std::stof(args["--supervised_weight"].asString()),\n        std::stof(args["--compute_likelihood"].asString())',
                                   'std::stof(args["--compute_likelihood"].asString()),\n        std::stof(args["--supervised_weight"].asString())')]),
 ('const-workers', ['C10'], 1, [(FS, 'builder.set_workers(args["--workers"].asLong());\n\n    // Add', 'builder.set_workers(args["--iterations"].asLong());\n\n    // Add')]),
 ('drop-iterations', ['C10'], 1, [(FS, 'builder.set_iterations(args["--iterations"].asLong());', '')]),
 ('m-step-iter', ['C10'], 1, [(S, 'args["--m_step_iterations"].asLong()', 'args["--e_step_iterations"].asLong()')]),
 ('undeclared', ['C10'], 1, [(L, 'args["--random_state"].asLong()', 'args["--seed"].asLong()')]),
 ('momentum-const', ['C10'], 1, [(FS, 'std::stof(args["--momentum"].asString())', '0.9f')]),
 ('momentum-int', ['C10'], 1, [(FS, 'std::stof(args["--momentum"].asString())', 'std::stoi(args["--momentum"].asString())')]),
 ('topics-plus', ['C10'], 1, [(FS, 'X.rows(),\n            args["--topics"].asLong(),', 'X.rows(),\n            args["--topics"].asLong() + 1,')]),
 ('quiet-inverted', ['C10'], 1, [(S, 'if (!args["--quiet"].asBool())', 'if (args["--quiet"].asBool())')]),
 ('quiet-always', ['C10'], 1, [(FS, 'lda.get_event_dispatcher()->add_listener<ExpectationProgress>();\n        }\n\n        Eigen', '}\n lda.get_event_dispatcher()->add_listener<ExpectationProgress>();\n        \n\n        Eigen')]),
 ('random-inverted', ['C10'], 1, [(FS, 'args["--initialize_random"].asBool()', '!args["--initialize_random"].asBool()')]),
 ('continue-path', ['C10'], 1, [(FS, 'io::load_lda(args["--continue_from_unsupervised"].asString())', 'io::load_lda(args["--continue"].asString())')]),
 ('continue-eta', ['C10'], 1, [(FS, 'initialize_topics_from_model(model).\n            initialize_eta_from_model(model);\n\n    } else', 'initialize_topics_from_model(model).\n            initialize_eta_zeros(y.maxCoeff() + 1);\n    } else')]),
 ('no-default', ['C10'], 1, [(FS, 'The mini-batch size for the online learning [default: 128]', 'The mini-batch size for the online learning')]),
 ('snapshot-quiet', ['C10'], 1, [(S, 'if (args["--snapshot_every"].asLong() > 0) {', 'if (!args["--quiet"].asBool() && args["--snapshot_every"].asLong() > 0) {')]),
 ('snapshot-zero', ['C10'], 1, [(S, 'if (args["--snapshot_every"].asLong() > 0) {', 'if (args["--snapshot_every"].asLong() >= 0) {')]),
 ('r-snapshot-ge1', ['C10'], 0, [(S, 'if (args["--snapshot_every"].asLong() > 0) {', 'if (args["--snapshot_every"].asLong() >= 1) {')]),
 ('r-snapshot-not', ['C10'], 0, [(S, 'if (args["--snapshot_every"].asLong() > 0) {', 'if (!(args["--snapshot_every"].asLong() <= 0)) {')]),
 ('r-quiet-var', ['C10', 'C25'], 0, [(S, 'if (!args["--quiet"].asBool())', 'const bool verbose = args["--quiet"].asBool() == false;\n if (verbose)')]),
 ('r-helper', ['C10', 'C25'], 0, [(FS, 'void add_e_step_options(', 'static double real(std::map<std::string, docopt::value> &a, const std::string & n) {\n return std::stof(a[n].asString());\n}\n\nvoid add_e_step_options('),
                                  (FS, 'std::stof(args["--e_step_tolerance"].asString()),\n        std::stof(args["--supervised_weight"].asString())', 'real(args, "--e_step_tolerance"),\n        real(args, "--supervised_weight")')]),
 ('r-at', ['C10'], 0, [(FS, 'args["--iterations"].asLong()', 'args.at("--iterations").asLong()')]),
 ('r-find', ['C10'], 0, [(FS, 'args["--iterations"].asLong()', 'args.find("--iterations")->second.asLong()')]),
 ('r-stod', ['C10'], 0, [(FS, 'std::stof(args["--momentum"].asString())', 'std::stod(args["--momentum"].asString())')]),
 ('r-local', ['C10'], 0, [(FS, 'builder.set_iterations(args["--iterations"].asLong());', 'size_t n_iter = args["--iterations"].asLong();\n builder.set_iterations(n_iter);')]),
 ('r-chain', ['C10'], 0, [(FS, 'builder.set_iterations(args["--iterations"].asLong());\n    builder.set_workers(args["--workers"].asLong());', 'builder.set_workers(args["--workers"].asLong()).set_iterations(args["--iterations"].asLong());')]),
 ('save-before-fit', ['C25'], 1, [(L, 'lda.fit(X);', 'io::save_lda(args["MODEL"].asString(), lda.model_parameters());\n lda.fit(X);\n return 0;')]),
 ('save-data-path', ['C25'], 1, [(FS, 'io::save_lda(\n            args["MODEL"].asString(),', 'io::save_lda(\n            args["DATA"].asString(),')]),
 ('output-model', ['C25'], 1, [(S, 'args["OUTPUT"].asString()', 'args["MODEL"].asString()')]),
 ('output-transposed', ['C25'], 1, [(S, 'doc_topic_distribution = lda.transform(X);', 'doc_topic_distribution = lda.transform(X).transpose();')]),
 ('save-quiet', ['C25'], 1, [(S, 'lda.fit(X, y);\n', 'lda.fit(X, y);\n if (args["--snapshot_every"].asLong() > 0) return 0;\n')]),
 ('load-data', ['C25'], 1, [(S, 'io::load_lda(args["MODEL"].asString())', 'io::load_lda(args["DATA"].asString())')]),
 ('fit-cut', ['C25'], 1, [(L, 'lda.fit(X);', 'lda.fit(X.leftCols(X.cols() - 1));')]),
 ('snap-pre', ['C25'], 1, [(SN, '''        seen_so_far_ ++;
        if (seen_so_far_ % save_every_ == 0) {
            snapshot(progress->model_parameters());
        }
''', '''        if (seen_so_far_ % save_every_ == 0) {
            snapshot(progress->model_parameters());
        }
        seen_so_far_ ++;
''')]),
 ('snap-start', ['C25'], 1, [(SN, 'seen_so_far_ = 0;', 'seen_so_far_ = 1;')]),
 ('snap-same', ['C25'], 1, [(SN, 'actual_path << seen_so_far_;', 'actual_path << save_every_;')]),
 ('snap-neg', ['C25'], 1, [(SN, 'seen_so_far_ % save_every_ == 0', 'seen_so_far_ % save_every_ != 0')]),
 ('snap-all', ['C25'], 1, [(SN, 'if (seen_so_far_ % save_every_ == 0) {', '{')]),
 ('r-snap-tostring', ['C25'], 0, [(SN, '    actual_path << seen_so_far_;\n\n    io::save_lda(actual_path.str(), parameters);', '    actual_path << seen_so_far_;\n    const std::string p = actual_path.str();\n    io::save_lda(p, parameters);')]),
 ('r-snap-inline', ['C25'], 0, [(SN, '''        seen_so_far_ ++;
        if (seen_so_far_ % save_every_ == 0) {
            snapshot(progress->model_parameters());
        }
''', '''        seen_so_far_ = seen_so_far_ + 1;
        const bool due = (seen_so_far_ % save_every_) == 0;
        if (!due) return;
        snapshot(progress->model_parameters());
''')]),
 ('r-save-helper', ['C25', 'C10'], 0, [(L, 'int main(int argc', 'template <class M> static void store(std::map<std::string, docopt::value> &args, M & lda) {\n    io::save_lda(args["MODEL"].asString(), lda.model_parameters());\n}\n\nint main(int argc'),
    (L, 'io::save_lda(\n            args["MODEL"].asString(),\n            lda.model_parameters()\n        );', 'store(args, lda);')]),
 ('r-direct-output', ['C25', 'C10'], 0, [(S, 'Eigen::MatrixXd doc_topic_distribution;\n        doc_topic_distribution = lda.transform(X);', 'const Eigen::MatrixXd doc_topic_distribution = lda.transform(X);')]),
]
