N = 'include/ldaplusplus/NumpyFormat.hpp'
IO = 'src/applications/lda_io.cpp'
MUTS = [
 ('save-swap', ['C12'], 1, [(IO, 'model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);', 'model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);')]),
 ('both-swap', ['C12'], 1, [(IO, 'model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->eta);', 'model << numpy_format::NumpyOutput<double>(model_parameters->eta);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);'),
    (IO, 'model >> ni; model_parameters->beta = ni;\n    model >> ni; model_parameters->eta = ni;', 'model >> ni; model_parameters->eta = ni;\n    model >> ni; model_parameters->beta = ni;')]),
 ('load-swap', ['C12'], 1, [(IO, 'model >> ni; model_parameters->beta = ni;\n    model >> ni; model_parameters->eta = ni;', 'model >> ni; model_parameters->eta = ni;\n    model >> ni; model_parameters->beta = ni;')]),
 ('load-skip', ['C12'], 1, [(IO, 'model >> ni; model_parameters->eta = ni;', 'model_parameters->eta = ni;')]),
 ('save-cond', ['C12'], 1, [(IO, 'model << numpy_format::NumpyOutput<double>(model_parameters->eta);', 'if (model_parameters->eta.size() > 0) model << numpy_format::NumpyOutput<double>(model_parameters->eta);')]),
 ('parse-labels-first', ['C12'], 1, [(IO, '    data >> ni;\n    X = ni;\n\n    // and the labels\n    data >> ni;\n    y = ni;', '    data >> ni;\n    y = ni;\n\n    // and the labels\n    data >> ni;\n    X = ni;')]),
 ('parse-late-copy', ['C12'], 1, [(IO, '    data >> ni;\n    X = ni;\n\n    // and the labels\n    data >> ni;\n    y = ni;', '    data >> ni;\n    data >> ni;\n    X = ni;\n    y = ni;')]),
 ('r-two-inputs', ['C12', 'C14'], 0, [(IO, '    data >> ni;\n    X = ni;\n\n    // and the labels\n    data >> ni;\n    y = ni;', '    numpy_format::NumpyInput<int> labels;\n    data >> ni >> labels;\n    y = labels;\n    X = ni;')]),
 ('r-load-fn', ['C12', 'C14'], 0, [(IO, 'model >> ni; model_parameters->alpha = ni;\n    model >> ni; model_parameters->beta = ni;\n    model >> ni; model_parameters->eta = ni;', 'model_parameters->alpha = numpy_format::load<double, Eigen::Dynamic, 1>(model);\n    model_parameters->beta = numpy_format::load<double>(model);\n    model_parameters->eta = numpy_format::load<double>(model);\n    (void)ni;')]),
 ('r-save-fn', ['C12', 'C14'], 0, [(IO, 'model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);', 'numpy_format::save(model, model_parameters->alpha);\n    numpy_format::save(model, model_parameters->beta);')]),
 ('r-chain', ['C12', 'C14'], 0, [(IO, 'model << numpy_format::NumpyOutput<double>(model_parameters->alpha);\n    model << numpy_format::NumpyOutput<double>(model_parameters->beta);\n    model <<', 'model << numpy_format::NumpyOutput<double>(model_parameters->alpha)\n    << numpy_format::NumpyOutput<double>(model_parameters->beta)\n    <<')]),
 ('no-data-check', ['C14'], 1, [(N, '                if (!is) {\n                    throw std::runtime_error("The array data is truncated");\n                }\n', '')]),
 ('no-header-check', ['C14'], 1, [(N, 'is.read(&buffer[0], header_len);\n                if (!is) {\n                    throw std::runtime_error("The array header is truncated");\n                }\n', 'is.read(&buffer[0], header_len);\n')]),
 ('no-len-check', ['C14'], 1, [(N, '                if (!is) {\n                    throw std::runtime_error("The array header is truncated");\n                }\n                if (is_big', '                if (is_big')]),
 ('magic-check-order', ['C14'], 1, [(N, 'if (!is || std::string(', 'if (std::string(')]),
 ('eof-only', ['C14'], 1, [(N, '                if (!is) {\n                    throw std::runtime_error("The array data is truncated");', '                if (is.bad()) {\n                    throw std::runtime_error("The array data is truncated");')]),
 ('no-shape-check', ['C14'], 1, [(N, 'if (data.shape_.empty()) {\n                    throw std::runtime_error("The array shape is malformed");\n                }\n', '')]),
 ('no-size-check', ['C14'], 1, [(N, 'if (header.size() < 35) {\n                    throw std::runtime_error("The array header is malformed");\n                }\n', '')]),
 ('short-size-check', ['C14'], 1, [(N, 'if (header.size() < 35) {', 'if (header.size() < 34) {')]),
 ('save-unchecked', ['C14'], 1, [(IO, '    model.close();\n    if (!model) {\n        throw std::runtime_error("Cannot write the model to " + model_path);\n    }\n', '')]),
 ('save-open-only', ['C14'], 1, [(IO, '    model.close();\n    if (!model) {\n        throw std::runtime_error("Cannot write the model to " + model_path);\n    }\n', ''),
    (IO, '    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);', '    if (!model) {\n        throw std::runtime_error("Cannot write the model to " + model_path);\n    }\n    model << numpy_format::NumpyOutput<double>(model_parameters->alpha);')]),
 ('save-no-close', ['C14'], 1, [(IO, '    model.close();\n    if (!model)', '    if (!model)')]),
 ('r-fail', ['C14'], 0, [(IO, '    model.close();\n    if (!model)', '    model.flush();\n    if (model.fail())')]),
 ('r-good-else', ['C14'], 0, [(N, '                if (!is) {\n                    throw std::runtime_error("The array data is truncated");\n                }\n', '                const bool complete = is.good();\n                if (complete == false) {\n                    throw std::runtime_error("The array data is truncated");\n                }\n')]),
 ('r-helper', ['C14', 'C12'], 0, [(N, '    template <typename Scalar>\n    class NumpyInput', '    inline void read_exactly(std::istream & is, char * to, std::streamsize n) {\n        is.read(to, n);\n        if (!is) throw std::runtime_error("The array is truncated");\n    }\n\n    template <typename Scalar>\n    class NumpyInput'),
    (N, 'is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));\n                if (!is) {\n                    throw std::runtime_error("The array data is truncated");\n                }\n', 'read_exactly(is, reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));\n')]),
 ('r-gcount', ['C14'], 0, [(N, 'is.read(reinterpret_cast<char *>(&header_len), 2);\n                if (!is) {', 'is.read(reinterpret_cast<char *>(&header_len), 2);\n                if (is.gcount() != 2) {')]),
]
