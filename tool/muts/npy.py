N = 'include/ldaplusplus/NumpyFormat.hpp'
def m(name, exp, *ed): return (name, ['C13'], exp, [(N, a, b) for a, b in ed])
PAD = '''while ((static_cast<size_t>(header.tellp()) + 11) % 16) {
                    header << " ";
                }'''
MUTS = [
 m('dtype-u2', 1, ('uint16_t>() { return "u2"; }', 'uint16_t>() { return "i2"; }')),
 m('dtype-i8', 1, ('<int64_t>() { return "i8"; }', '<int64_t>() { return "i4"; }')),
 m('pad-10', 1, ('+ 11) % 16', '+ 10) % 16')),
 m('pad-8', 1, ('+ 11) % 16', '+ 11) % 8')),
 m('magic', 1, ('0x50, 0x59, 0x01, 0x00', '0x50, 0x59, 0x02, 0x00')),
 m('magic-count', 1, ('os.write(reinterpret_cast<const char *>(MAGIC_AND_VERSION), 8)', 'os.write(reinterpret_cast<const char *>(MAGIC_AND_VERSION), 7)')),
 m('len-order', 1, ('os.write(reinterpret_cast<const char *>(&header_len) + 1, 1);\n                    os.write(reinterpret_cast<const char *>(&header_len), 1);','os.write(reinterpret_cast<const char *>(&header_len), 1);\n                    os.write(reinterpret_cast<const char *>(&header_len) + 1, 1);')),
 m('len-flag', 1, ('if (!is_big_endian()) {', 'if (is_big_endian()) {')),
 m('descr-order', 1, ('is_big_endian() ? ">" : "<"', 'is_big_endian() ? "<" : ">"')),
 m('fortran-text', 1, ('? "True" : "False"', '? "False" : "True"')),
 m('true-lower', 1, ('? "True" : "False"', '? "true" : "false"')),
 m('fortran-off', 1, ('header[34]', 'header[33]')),
 m('fortran-F', 1, ("header[34] == 'T'", "header[34] == 'F'")),
 m('dtype-off', 1, ('header.substr(11, 3)', 'header.substr(10, 3)')),
 m('swap-same', 1, ('endianness != is_big_endian()', 'endianness == is_big_endian()')),
 m('swap-never', 1, ('if (endianness != is_big_endian())', 'if (is_big_endian())')),
 m('swap-count', 1, ('swap_endianess(&data.data_[0], N);', 'swap_endianess(&data.data_[0], N-1);')),
 m('rd-len-noswap', 1, ('if (is_big_endian()) {\n                    swap_endianess(&header_len, 1);\n                }', '')),
 m('place-swap', 1, ('i*rows + j : j*cols + i', 'j*cols + i : i*rows + j')),
 m('place-dim', 1, ('i*rows + j : j*cols + i', 'i*cols + j : j*rows + i')),
 m('cols-1', 1, ('for (int i=0; i<cols; i++) {', 'for (int i=0; i<cols-1; i++) {')),
 m('cols-from2', 1, ('for (size_t i=1; i<shape_.size(); i++)', 'for (size_t i=2; i<shape_.size(); i++)')),
 m('layout-flag', 1, ('! Eigen::Matrix<Scalar, Rows, Cols, Options>::IsRowMajor', 'Eigen::Matrix<Scalar, Rows, Cols, Options>::IsRowMajor')),
 m('shape-swap', 1, ('static_cast<size_t>(matrix.rows()),\n                        static_cast<size_t>(matrix.cols())', 'static_cast<size_t>(matrix.cols()),\n                        static_cast<size_t>(matrix.rows())')),
 m('swap-full', 1, ('j<sizeof(Scalar)/2', 'j<sizeof(Scalar)')),
 m('swap-adj', 1, ('d.c[sizeof(Scalar)-j-1]', 'd.c[sizeof(Scalar)/2+j]')),
 m('data-count', 1, ('os.write(data.data(), N*sizeof(Scalar))', 'os.write(data.data(), N*sizeof(float))')),
 m('rd-count', 1, ('is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar))', 'is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(float))')),
 m('type-size-only', 1, ('dtype.substr(1) != dtype_for_scalar<Scalar>()', 'dtype.substr(2) != std::string(dtype_for_scalar<Scalar>()).substr(1)')),
 m('endian-test', 1, ('b.c[0] == 0x01', 'b.c[0] == 0x67')),
 m('no-newline', 1, ('header << "\\n";', 'header << " ";')),
 m('key-name', 1, ("\" 'fortran_order': \"", "\" 'fortran': \"")),
 m('header-read', 1, ('is.read(&buffer[0], header_len);', 'is.read(&buffer[0], header_len-1);')),
 # refactorings
 m('R-pad-arith', 0, (PAD, '''{
                    const size_t used = static_cast<size_t>(header.tellp()) + 11;
                    const size_t missing = (16 - used % 16) % 16;
                    header << std::string(missing, ' ');
                }''')),
 m('R-pad-for', 0, (PAD, '''for (; (11 + static_cast<size_t>(header.tellp())) % 16 != 0; ) {
                    header << ' ';
                }''')),
 m('R-loops', 0, ('for (int i=0; i<cols; i++) {\n                    for (int j=0; j<rows; j++) {', 'for (int j=0; j<rows; j++) {\n                    for (int i=0; i<cols; i++) {')),
 m('R-if', 0, ('int idx = (fortran_) ? i*rows + j : j*cols + i;', 'int idx;\n if (fortran_) { idx = j + rows*i; } else { idx = i + cols*j; }')),
 m('R-ternary-swap', 0, ('int idx = (fortran_) ? i*rows + j : j*cols + i;', 'int idx = (!fortran_) ? j*cols + i : i*rows + j;')),
 m('R-endian', 0, ('if (endianness != is_big_endian()) {', 'const bool native = endianness == is_big_endian();\nif (!native) {')),
 m('R-swap-helper', 0, ('std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);', 'uint8_t t = d.c[j]; d.c[j] = d.c[sizeof(Scalar)-1-j]; d.c[sizeof(Scalar)-1-j] = t;')),
 m('R-accumulate', 0, ('for (auto d : data.shape()) {\n                    N *= d;\n                }', 'for (size_t k=0; k<data.shape().size(); k++) {\n                    N = N * data.shape()[k];\n                }')),
 m('R-header-string', 0, ('''os << header.str();''', '''const std::string text = header.str();
                os.write(text.data(), text.size());''')),
 m('R-compare', 0, ('dtype.substr(1) != dtype_for_scalar<Scalar>()', 'std::string(dtype_for_scalar<Scalar>()) != dtype.substr(1)')),
 m('R-compare2', 0, ('if (dtype.substr(1) != dtype_for_scalar<Scalar>())', 'const std::string wanted = dtype_for_scalar<Scalar>();\nif (!(dtype.substr(1) == wanted))')),
 m('R-len-shift', 0, ('''if (!is_big_endian()) {
                    os.write(reinterpret_cast<const char *>(&header_len), 2);
                } else {
                    os.write(reinterpret_cast<const char *>(&header_len) + 1, 1);
                    os.write(reinterpret_cast<const char *>(&header_len), 1);
                }''', '''os.put(static_cast<char>(header_len & 0xff));
                os.put(static_cast<char>(header_len >> 8));''')),
 m('R-fortran-if', 0, ('data.fortran_ = header[34] == \'T\';', 'if (header[34] == \'T\') { data.fortran_ = true; } else { data.fortran_ = false; }')),
 m('R-ptr-swap', 0, ('d.v = data[i];', 'Scalar &e = data[i];\nd.v = e;'), ('data[i] = d.v;', 'e = d.v;')),
 m('R-reverse', 0, ('''for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
            }''', '''for (size_t j=0, k=sizeof(Scalar)-1; j<k; j++, k--) {
                std::swap(d.c[j], d.c[k]);
            }''')),
]
