G = 'include/ldaplusplus/optimization/GradientDescent.hpp'
C = ['C21']
LOOP = """            do {
                a *= tau_;
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
            } while (value > value_x0 - a * decrease);

            x0 -= a * direction;

            return value;
"""
MIN = """            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x0, grad, grad);
            }
"""
def L(new): return [(G, LOOP, new)]
def M(new): return [(G, MIN, new)]
MUTS = [
 ('const-sign', C, 1, [(G, 'x0 -= alpha_ * direction', 'x0 += alpha_ * direction')]),
 ('const-value-before', C, 1, [(G, "            x0 -= alpha_ * direction;\n\n            return problem.value(x0);", "            Scalar v = problem.value(x0);\n            x0 -= alpha_ * direction;\n            return v;")]),
 ('const-grad', C, 1, [(G, 'x0 -= alpha_ * direction', 'x0 -= alpha_ * grad_x0')]),
 ('armijo-sign', C, 1, [(G, '            x0 -= a * direction', '            x0 += a * direction')]),
 ('armijo-return', C, 1, [(G, '            return value;', '            return value_x0;')]),
 ('armijo-other-step', C, 1, [(G, '            x0 -= a * direction', '            x0 -= a * tau_ * direction')]),
 ('armijo-cond-sign', C, 1, [(G, 'value > value_x0 - a * decrease', 'value > value_x0 + a * decrease')]),
 ('armijo-cond-flip', C, 1, [(G, 'value > value_x0 - a * decrease', 'value < value_x0 - a * decrease')]),
 ('armijo-cond-nostep', C, 1, [(G, 'value > value_x0 - a * decrease', 'value > value_x0 - decrease')]),
 ('armijo-cond-nodec', C, 1, [(G, 'value > value_x0 - a * decrease', 'value > value_x0')]),
 ('armijo-cond-limit', C, 1, [(G, '(value > value_x0 - a * decrease)', '(value > value_x0 - a * decrease && a > 1e-3)')]),
 ('armijo-cond-grad', C, 1, [(G, '(grad_x0.array() * direction.array()).sum()', '(direction.array() * direction.array()).sum()')]),
 ('armijo-orig', C, 1, [(G, 'Scalar a = 1.0/tau_;', 'Scalar a = 1.0;')] + L("""            while (value > value_x0 - a * decrease) {
                a *= tau_;
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
            }

            x0 -= a * direction;

            return value;
""")),
 ('armijo-shrink-after', C, 1, L("""            do {
                a *= tau_;
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
                if (value <= value_x0 - a * decrease) break;
                a *= tau_;
            } while (value > value_x0 - a * decrease);
            x0 -= a * direction;

            return value;
""")),
 ('ok-copy', C, 0, [(G, '            x0 -= a * direction;', '            x0 = x_copy;')]),
 ('ok-while', C, 0, [(G, 'Scalar a = 1.0/tau_;', 'Scalar a = 1.0;'), (G, 'Scalar value = value_x0;', 'Scalar value = problem.value(x0 - direction);')] + L("""            while (value > value_x0 - a * decrease) {
                a *= tau_;
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
            }

            x0 -= a * direction;

            return value;
""")),
 ('ok-for-break', C, 0, [(G, 'Scalar a = 1.0/tau_;', 'Scalar a = 1.0;')] + L("""            for (;; a *= tau_) {
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
                if (!(value > value_x0 - a * decrease)) break;
            }
            x0 = x_copy;
            return value;
""")),
 ('ok-flag', C, 0, L("""            bool accepted = false;
            while (!accepted) {
                a *= tau_;
                x_copy.noalias() = x0 - a * direction;
                value = problem.value(x_copy);
                accepted = !(value > value_x0 - a * decrease);
            }
            x0 = x_copy;
            return value;
""")),
 ('ok-return-in-loop', C, 0, [(G, 'Scalar a = 1.0/tau_;', 'Scalar a = 1.0;')] + L("""            while (true) {
                x_copy = x0 - a * direction;
                value = problem.value(x_copy);
                if (value <= value_x0 - a * decrease) {
                    x0 = x_copy;
                    return value;
                }
                a *= tau_;
            }
""")),
 ('ok-threshold', C, 0, L("""            Scalar limit;
            do {
                a = a * tau_;
                x_copy = x0 - direction * a;
                value = problem.value(x_copy);
                limit = value_x0 - a * decrease;
            } while (limit < value);
            x0 = x0 - direction * a;
            return problem.value(x0);
""")),
 ('ok-helper', C, 0, L("""            do {
                a *= tau_;
                value = probe(problem, x0, a, direction, x_copy);
            } while (value > value_x0 - a * decrease);
            x0.swap(x_copy);

            return value;
""".replace('x0.swap(x_copy)', 'x0 = x_copy')) + [(G, """    private:
        Scalar beta_;
""", """    private:
        Scalar probe(const ProblemType &problem, const ParameterType &x0, Scalar a, const ParameterType &d, ParameterType &out) const {
            out = x0 - a * d;
            return problem.value(out);
        }
        Scalar beta_;
""")]),
 ('gd-stale-gradient', C, 1, [(G, "            // And the iterations in this one", "            problem.gradient(x0, grad);"), (G, "                problem.gradient(x0, grad);\n                value", "                value")]),
 ('gd-copy', C, 1, [(G, "            // And the iterations in this one", "            ParameterType x = x0;"), (G, "problem.gradient(x0, grad);", "problem.gradient(x, grad);")]),
 ('gd-after', C, 1, [(G, "                problem.gradient(x0, grad);\n                value = line_search_->search(problem, x0, grad, grad);", "                value = line_search_->search(problem, x0, grad, grad);\n                problem.gradient(x0, grad);")]),
 ('gd-novalue', C, 1, [(G, "                value = line_search_->search", "                line_search_->search")]),
 ('gd-value-before', C, 1, M("""            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                problem.gradient(x0, grad);
                value = problem.value(x0);
                line_search_->search(problem, x0, grad, grad);
            }
""")),
 ('gd-wrong-x', C, 1, M("""            ParameterType x = x0;
            while (progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++)) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x, grad, grad);
            }
""")),
 ('gd-ok-for', C, 0, M("""            for (; progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations); iterations++) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x0, grad, grad);
            }
""")),
 ('gd-ok-value', C, 0, M("""            bool more = progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++);
            while (more) {
                problem.gradient(x0, grad);
                value = line_search_->search(problem, x0, grad, grad);
                more = progress_(value, grad.template lpNorm<Eigen::Infinity>(), iterations++);
            }
""")),
 ('gd-ok-break', C, 0, M("""            while (true) {
                const Scalar norm = grad.template lpNorm<Eigen::Infinity>();
                if (!progress_(value, norm, iterations)) {
                    break;
                }
                iterations++;
                problem.gradient(x0, grad);
                const ParameterType &direction = grad;
                value = line_search_->search(problem, x0, grad, direction);
            }
""")),
]
