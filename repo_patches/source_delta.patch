From ad1771858447c6e8b99a62aa68b1201ed0a43378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 01/25] fix: multinomial E step tests convergence against its
 tolerance

It compared the change of gamma with the likelihood percentage instead.
---
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 9c8168d..1bf32b4 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -55,7 +55,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
 
     for (size_t iteration=0; iteration<e_step_iterations_; iteration++) {
         // check for early stopping
-        if (this->converged(gamma_old, gamma, compute_likelihood_)) {
+        if (this->converged(gamma_old, gamma, e_step_tolerance_)) {
             break;
         }
         gamma_old = gamma;
-- 
2.43.0


From a9173ec5845a0378ee7edd0d85a548193b791193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 02/25] fix: --continue_from_unsupervised loads the model it
 names

It read the (absent) --continue option and died.
---
 src/applications/fslda.cpp | 2 +-
 src/applications/slda.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/fslda.cpp b/src/applications/fslda.cpp
index 13414ac..fef6ca4 100644
--- a/src/applications/fslda.cpp
+++ b/src/applications/fslda.cpp
@@ -50,7 +50,7 @@ void add_initialization_options(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
diff --git a/src/applications/slda.cpp b/src/applications/slda.cpp
index 1a02f81..04bfa40 100644
--- a/src/applications/slda.cpp
+++ b/src/applications/slda.cpp
@@ -53,7 +53,7 @@ LDA<double> create_lda_for_train(
             initialize_eta_from_model(model);
 
     } else if (args["--continue_from_unsupervised"]) {
-        auto model = io::load_lda(args["--continue"].asString());
+        auto model = io::load_lda(args["--continue_from_unsupervised"].asString());
         builder.
             initialize_topics_from_model(model).
             initialize_eta_zeros(y.maxCoeff() + 1);
-- 
2.43.0


From f19fe5e40966b9c432c40c1e36f9474ab9e2cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 03/25] fix: swap_endianess stores the swapped values

Arrays of the other byte order were loaded with their bytes reversed.
---
 include/ldaplusplus/NumpyFormat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 3c90c44..550ebbd 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -69,6 +69,8 @@ namespace numpy_format {
             for (size_t j=0; j<sizeof(Scalar)/2; j++) {
                 std::swap(d.c[j], d.c[sizeof(Scalar)-j-1]);
             }
+
+            data[i] = d.v;
         }
     }
 
-- 
2.43.0


From e906649250707b7e22f0d3a4365037f26fcc9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 04/25] fix: reading a truncated or malformed numpy array
 throws

The magic was inspected before checking that anything was read and the
header length, header and data were used without checking that the reads
had succeeded, so a truncated file yielded made-up values.
---
 include/ldaplusplus/NumpyFormat.hpp | 31 +++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 550ebbd..2932476 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -279,11 +279,6 @@ namespace numpy_format {
                 // read the magic and the version and assert that it is compatible
                 char MAGIC_AND_VERSION[8];
                 is.read(MAGIC_AND_VERSION, 8);
-                if (MAGIC_AND_VERSION[6] > 1) {
-                    throw std::runtime_error(
-                        "Only version 1 of the numpy format is supported"
-                    );
-                }
 
                 // if the file is empty (aka we read nothing) just throw a
                 // runtime error
@@ -292,10 +287,21 @@ namespace numpy_format {
                         "The file is empty and cannot be read"
                     );
                 }
+                if (!is || std::string(MAGIC_AND_VERSION, 6) != "\x93NUMPY") {
+                    throw std::runtime_error("This is not a numpy array");
+                }
+                if (MAGIC_AND_VERSION[6] > 1) {
+                    throw std::runtime_error(
+                        "Only version 1 of the numpy format is supported"
+                    );
+                }
 
                 // read the header len
                 uint16_t header_len;
                 is.read(reinterpret_cast<char *>(&header_len), 2);
+                if (!is) {
+                    throw std::runtime_error("The array header is truncated");
+                }
                 if (is_big_endian()) {
                     swap_endianess(&header_len, 1);
                 }
@@ -303,6 +309,9 @@ namespace numpy_format {
                 // read the header
                 std::vector<char> buffer(header_len+1);
                 is.read(&buffer[0], header_len);
+                if (!is) {
+                    throw std::runtime_error("The array header is truncated");
+                }
                 buffer[header_len] = 0;
                 std::string header(&buffer[0]);
 
@@ -323,6 +332,9 @@ namespace numpy_format {
                 }
 
                 // parse contiguity type
+                if (header.size() < 35) {
+                    throw std::runtime_error("The array header is malformed");
+                }
                 data.fortran_ = header[34] == 'T';
 
                 // parse shape
@@ -342,8 +354,12 @@ namespace numpy_format {
                     // that's ok it means we finished parsing the tuple
                 }
 
+                if (data.shape_.empty()) {
+                    throw std::runtime_error("The array shape is malformed");
+                }
+
                 // compute the total size of the data
-                int N = 1;
+                size_t N = 1;
                 for (auto c : data.shape_) {
                     N *= c;
                 }
@@ -351,6 +367,9 @@ namespace numpy_format {
                 // read the data
                 data.data_.resize(N);
                 is.read(reinterpret_cast<char *>(&data.data_[0]), N*sizeof(Scalar));
+                if (!is) {
+                    throw std::runtime_error("The array data is truncated");
+                }
 
                 // fix the endianess
                 if (endianness != is_big_endian()) {
-- 
2.43.0


From 4a7b440d5e7f20923eac6cdb9c06da5855fd72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 05/25] fix: report failures to write models and arrays

Saving to a path that cannot be opened or on a full disk was silently
ignored.
---
 include/ldaplusplus/NumpyFormat.hpp | 5 +++++
 src/applications/lda_io.cpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/ldaplusplus/NumpyFormat.hpp b/include/ldaplusplus/NumpyFormat.hpp
index 2932476..64c9f76 100644
--- a/include/ldaplusplus/NumpyFormat.hpp
+++ b/include/ldaplusplus/NumpyFormat.hpp
@@ -405,6 +405,11 @@ namespace numpy_format {
         );
 
         save(out_stream, matrix);
+
+        out_stream.close();
+        if (!out_stream) {
+            throw std::runtime_error("Cannot write the array to " + save_path);
+        }
     }
 
 
diff --git a/src/applications/lda_io.cpp b/src/applications/lda_io.cpp
index 4b66a23..ecc9119 100644
--- a/src/applications/lda_io.cpp
+++ b/src/applications/lda_io.cpp
@@ -68,6 +68,11 @@ void save_lda(
     model << numpy_format::NumpyOutput<double>(model_parameters->alpha);
     model << numpy_format::NumpyOutput<double>(model_parameters->beta);
     model << numpy_format::NumpyOutput<double>(model_parameters->eta);
+
+    model.close();
+    if (!model) {
+        throw std::runtime_error("Cannot write the model to " + model_path);
+    }
 }
 
 std::shared_ptr<parameters::SupervisedModelParameters<double> > load_lda(
-- 
2.43.0


From 959f14f5831c43872f1596f4bce587306a7b2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 06/25] fix: do not count unlabelled documents as members of a
 class

A negative label indexed the class frequencies out of bounds.
---
 src/applications/utils.cpp   | 4 +++-
 src/ldaplusplus/Document.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/applications/utils.cpp b/src/applications/utils.cpp
index b8e4937..c6986ca 100644
--- a/src/applications/utils.cpp
+++ b/src/applications/utils.cpp
@@ -8,7 +8,9 @@ Eigen::VectorXd create_class_weights(const Eigen::VectorXi & y) {
     Eigen::VectorXd Cy = Eigen::VectorXd::Zero(C);
 
     for (int d=0; d<y.rows(); d++) {
-        Cy[y[d]]++;
+        // documents without a label have a negative class
+        if (y[d] >= 0)
+            Cy[y[d]]++;
     }
 
     Cy = y.rows() / (Cy.array() * C).array();
diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index 937245d..b422aac 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -101,9 +101,12 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-        priors_[y_[i]] ++;
+        // documents without a label have a negative class
+        if (y_[i] >= 0)
+            priors_[y_[i]] ++;
     }
-    priors_.array() /= priors_.sum();
+    if (priors_.sum() > 0)
+        priors_.array() /= priors_.sum();
 }
 
 size_t EigenClassificationCorpus::size() const {
-- 
2.43.0


From 61c479c0969c64b2086cd1d17e44a12e04ee5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 07/25] fix: keep eta when a pass contains no labelled document

The logistic regression was constructed from an empty label vector, whose
maximum does not exist.
---
 src/ldaplusplus/em/FastSupervisedMStep.cpp | 4 ++++
 src/ldaplusplus/em/SupervisedMStep.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ldaplusplus/em/FastSupervisedMStep.cpp b/src/ldaplusplus/em/FastSupervisedMStep.cpp
index 5a52e78..f2bae2d 100644
--- a/src/ldaplusplus/em/FastSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedMStep.cpp
@@ -62,6 +62,10 @@ void FastSupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without labelled documents there is nothing to fit \eta to
+    if (docs_ == 0)
+        return;
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 0d08756..7c33ebd 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -73,6 +73,10 @@ void SupervisedMStep<Scalar>::m_step(
     );
     MatrixX &eta = std::static_pointer_cast<parameters::SupervisedModelParameters<Scalar> >(parameters)->eta;
 
+    // without labelled documents there is nothing to fit \eta to
+    if (docs_ == 0)
+        return;
+
     // resize the member variables to fit the documents we 've seen so far in
     // the doc_m_steps
     y_.conservativeResize(docs_);
-- 
2.43.0


From 4d8bb677b30055d2db8f38313f00a99f0707709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 08/25] fix: the online M step uses the class weights it is
 given

They were stored and then replaced by the class frequencies of each
mini-batch.
---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 0485893..8693615 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -112,6 +112,7 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     optimization::MultinomialLogisticRegression<Scalar> mlr(
         expected_z_bar_,
         y_,
+        class_weights_,
         regularization_penalty_
     );
     mlr.gradient(eta, eta_gradient_);
-- 
2.43.0


From 81b53ec73999eccd27abeca8b87b30b83b205b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 09/25] fix: a topic without words does not turn into NaN in
 the batch M step

---
 src/ldaplusplus/em/UnsupervisedMStep.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/UnsupervisedMStep.cpp b/src/ldaplusplus/em/UnsupervisedMStep.cpp
index 37d6832..667bd99 100644
--- a/src/ldaplusplus/em/UnsupervisedMStep.cpp
+++ b/src/ldaplusplus/em/UnsupervisedMStep.cpp
@@ -1,4 +1,5 @@
 #include "ldaplusplus/em/UnsupervisedMStep.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -9,8 +10,9 @@ void UnsupervisedMStep<Scalar>::m_step(
     std::shared_ptr<parameters::Parameters> parameters
 ) {
     // we maximized w.r.t \beta during each doc_m_step
-    std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters)->beta = 
-        b_.array().colwise() / b_.array().rowwise().sum();
+    auto model = std::static_pointer_cast<parameters::ModelParameters<Scalar> >(parameters);
+    model->beta = b_;
+    math_utils::normalize_rows(model->beta);
 
     b_.fill(0);
 }
-- 
2.43.0


From 4faf0579083a877ecd83a254cab413d382d3e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 10/25] fix: empty documents and topics do not poison the
 online M step

---
 src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
index 8693615..67c5abd 100644
--- a/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
+++ b/src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp
@@ -3,6 +3,7 @@
 #include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
 #include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 namespace em {
@@ -74,7 +75,9 @@ void FastOnlineSupervisedMStep<Scalar>::doc_m_step(
 
     // Supervised suff stats
     expected_z_bar_.col(docs_seen_so_far_) = gamma - alpha;
-    expected_z_bar_.col(docs_seen_so_far_).array() /= expected_z_bar_.col(docs_seen_so_far_).sum();
+    Scalar words_in_doc = expected_z_bar_.col(docs_seen_so_far_).sum();
+    if (words_in_doc != 0)
+        expected_z_bar_.col(docs_seen_so_far_).array() /= words_in_doc;
     y_(docs_seen_so_far_) = y;
 
     // mark another document as seen
@@ -103,9 +106,11 @@ void FastOnlineSupervisedMStep<Scalar>::m_step(
     // update the topic distributions
     // TODO: Change the update to something more formal like the online update
     //       of Hoffman et al.
+    MatrixX new_beta = b_;
+    math_utils::normalize_rows(new_beta);
     beta.array() = (
         beta_weight_ * beta.array() +
-        (1-beta_weight_) * (b_.array().colwise() / b_.array().rowwise().sum())
+        (1-beta_weight_) * new_beta.array()
     );
 
     // update the eta
-- 
2.43.0


From 1019cf46b77a984beafe85fe1d379b3f48c7251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 11/25] fix: documents that are empty or have many words in the
 supervised M step

Empty documents divided by zero and N * N overflowed for documents of more
than 46340 words.
---
 src/ldaplusplus/em/SupervisedMStep.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/em/SupervisedMStep.cpp b/src/ldaplusplus/em/SupervisedMStep.cpp
index 7c33ebd..5ca6039 100644
--- a/src/ldaplusplus/em/SupervisedMStep.cpp
+++ b/src/ldaplusplus/em/SupervisedMStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/optimization/GradientDescent.hpp"
 #include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
@@ -24,7 +26,7 @@ void SupervisedMStep<Scalar>::doc_m_step(
 
     // Get the words from the doc
     const Eigen::VectorXi & X = doc->get_words();
-    int N = X.sum();
+    Scalar N = std::max(X.sum(), 1);  // no words contribute zeros
 
     // Cast Parameters to VariationalParameters in order to have access to gamma and phi
     const VectorX &gamma = std::static_pointer_cast<parameters::VariationalParameters<Scalar> >(v_parameters)->gamma;
-- 
2.43.0


From 15c6878cf85c407089b5d6e75ceb5e363200effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 12/25] fix: empty documents have zero word ratios in the
 supervised E steps

---
 src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp | 4 +++-
 src/ldaplusplus/em/FastSupervisedEStep.cpp           | 4 +++-
 src/ldaplusplus/em/MultinomialSupervisedEStep.cpp    | 4 +++-
 src/ldaplusplus/em/SupervisedEStep.cpp               | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp b/src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp
index 2704f68..bdf1a8c 100644
--- a/src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/events/ProgressEvents.hpp"
 #include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
 #include "ldaplusplus/e_step_utils.hpp"
@@ -30,7 +32,7 @@ std::shared_ptr<parameters::Parameters> CorrespondenceSupervisedEStep<Scalar>::d
     const Eigen::VectorXi &X = doc->get_words();
     int num_words = X.sum();
     int voc_size = X.rows();
-    VectorX X_ratio = X.cast<Scalar>() / num_words;
+    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);
 
     // Get the document's class
     int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
diff --git a/src/ldaplusplus/em/FastSupervisedEStep.cpp b/src/ldaplusplus/em/FastSupervisedEStep.cpp
index e28c51a..924f7e6 100644
--- a/src/ldaplusplus/em/FastSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/FastSupervisedEStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <cmath>
 
 #include "ldaplusplus/events/ProgressEvents.hpp"
@@ -35,7 +37,7 @@ std::shared_ptr<parameters::Parameters> FastSupervisedEStep<Scalar>::doc_e_step(
     const Eigen::VectorXi &X = doc->get_words();
     int num_words = X.sum();
     int voc_size = X.rows();
-    VectorX X_ratio = X.cast<Scalar>() / num_words;
+    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);
 
     // Get the document's class
     int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
diff --git a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
index 1bf32b4..4dbda03 100644
--- a/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
+++ b/src/ldaplusplus/em/MultinomialSupervisedEStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/events/ProgressEvents.hpp"
 #include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
 #include "ldaplusplus/e_step_utils.hpp"
@@ -32,7 +34,7 @@ std::shared_ptr<parameters::Parameters> MultinomialSupervisedEStep<Scalar>::doc_
     const Eigen::VectorXi &X = doc->get_words();
     int num_words = X.sum();
     int voc_size = X.rows();
-    VectorX X_ratio = X.cast<Scalar>() / num_words;
+    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);
 
     // Get the document's class
     int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index c6f6b56..a9ab94c 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/events/ProgressEvents.hpp"
 #include "ldaplusplus/em/SupervisedEStep.hpp"
 #include "ldaplusplus/e_step_utils.hpp"
@@ -30,7 +32,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
     const Eigen::VectorXi &X = doc->get_words();
     int num_words = X.sum();
     int voc_size = X.rows();
-    VectorX X_ratio = X.cast<Scalar>() / num_words;
+    VectorX X_ratio = X.cast<Scalar>() / std::max(num_words, 1);
 
     // Get the document's class
     int y = std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class();
-- 
2.43.0


From 406d788a3971d4f1d2461afe92428f209ff58c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 13/25] fix: the scores of a document without words are not NaN

---
 src/ldaplusplus/LDA.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index 606e8b0..a68c191 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -6,6 +6,7 @@
 
 #include "ldaplusplus/LDA.hpp"
 #include "ldaplusplus/events/ProgressEvents.hpp"
+#include "ldaplusplus/utils.hpp"
 
 namespace ldaplusplus {
 
@@ -193,7 +194,7 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::decision_function(const MatrixX &X) {
     // the linear model is trained on
     // E_q[\bar z] = \fraction{\gamma - \alpha}{\sum_i \gamma_i}
     MatrixX expected_z_bar = X.colwise() - model->alpha;
-    expected_z_bar.array().rowwise() /= expected_z_bar.array().colwise().sum();
+    math_utils::normalize_cols(expected_z_bar);
 
     // finally return the linear scores like a boss
     return model->eta.transpose() * expected_z_bar;
-- 
2.43.0


From 91364f372221123872410eb92cf587d95bd28a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 14/25] fix: supervised inference and likelihood of empty
 documents and unseen words

For a document without words the column before the first one was read, h
was never set and the word total was divided by; a word no topic emits
turned phi into NaN.
---
 src/ldaplusplus/e_step_utils.cpp       | 20 ++++++++++++++------
 src/ldaplusplus/em/SupervisedEStep.cpp |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index 09c69a1..ad7f0b0 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "ldaplusplus/e_step_utils.hpp"
 #include "ldaplusplus/utils.hpp"
 
@@ -56,8 +58,8 @@ Scalar compute_supervised_likelihood(
     const VectorX<Scalar> &gamma
 ) {
     // Computing h is an overkill and should be changed
-    VectorX<Scalar> h(phi.rows());
-    VectorX<Scalar> X_ratio = X.cast<Scalar>() / X.sum();
+    VectorX<Scalar> h = VectorX<Scalar>::Zero(phi.rows());
+    VectorX<Scalar> X_ratio = X.cast<Scalar>() / std::max(X.sum(), 1);
     compute_h<Scalar>(X, X_ratio, eta, phi, h);
 
     return compute_supervised_likelihood(X, y, alpha, beta, eta, phi, gamma, h);
@@ -87,6 +89,10 @@ Scalar compute_supervised_likelihood(
         if (X[n] > 0)
             break;
     }
+    // documents without words carry no information about their class
+    if (n < 0)
+        return likelihood;
+
     likelihood += (eta.col(y).transpose() * phi * X.cast<Scalar>()).value() / X.sum();
     likelihood += - std::log((h.transpose() * phi.col(n)).value());
 
@@ -156,7 +162,7 @@ Scalar compute_supervised_correspondence_likelihood(
     likelihood += (phi_scaled.colwise() * eta.col(y).array().log()).sum();
 
     // E_q[log p(\lambda | N)]
-    likelihood += -std::log(X.sum());
+    likelihood += -std::log(std::max(X.sum(), 1));
 
     // E_q[log p(\eta | \mu)]
     int num_classes = eta.cols();
@@ -236,8 +242,8 @@ void compute_supervised_phi_gamma(
     }
 
     for (int n=0; n<X.rows(); n++) {
-        // Skip this word if it is not in the document
-        if (X[n] == 0)
+        // Skip this word if it is not in the document or no topic emits it
+        if (X[n] == 0 || beta.col(n).sum() == 0)
             continue;
 
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
@@ -261,7 +267,9 @@ void compute_supervised_phi_gamma(
             //    psi_gamma + X_ratio[n]*eta.col(y) - h * t
             //).array().exp();
 
-            phi.col(n).array() /= phi.col(n).sum();
+            Scalar phi_sum = phi.col(n).sum();
+            if (phi_sum != 0)
+                phi.col(n).array() /= phi_sum;
         }
 
         // Recompute the products with the updated phi
diff --git a/src/ldaplusplus/em/SupervisedEStep.cpp b/src/ldaplusplus/em/SupervisedEStep.cpp
index a9ab94c..f0815c1 100644
--- a/src/ldaplusplus/em/SupervisedEStep.cpp
+++ b/src/ldaplusplus/em/SupervisedEStep.cpp
@@ -49,7 +49,7 @@ std::shared_ptr<parameters::Parameters> SupervisedEStep<Scalar>::doc_e_step(
     VectorX gamma = alpha.array() + static_cast<Scalar>(num_words)/num_topics;
 
     // allocate memory for helper variables
-    VectorX h(num_topics);
+    VectorX h = VectorX::Zero(num_topics);
 
     // to check for convergence
     VectorX gamma_old = VectorX::Zero(num_topics);
-- 
2.43.0


From b0d7dfa86838692932ef737152402e4c1a58c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 15/25] fix: always use at least one worker

With zero workers (which hardware_concurrency() may return) nobody served
the queue and every call hung.
---
 src/ldaplusplus/LDA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index a68c191..a068d9f 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -22,7 +22,7 @@ LDA<Scalar>::LDA(
     e_step_(e_step),
     m_step_(m_step),
     iterations_(iterations),
-    workers_(workers),
+    workers_(std::max(workers, static_cast<size_t>(1))),
     event_dispatcher_(std::make_shared<events::SameThreadEventDispatcher>())
 {
     set_up_event_dispatcher();
-- 
2.43.0


From 787a0f9658d75eb42289b39f690995e174d6918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 16/25] fix: join the workers when a pass is left by an
 exception

An exception thrown by a listener or by the M step left joinable threads
(the next pass or the destructor then terminated the program) and stale
entries in the queues.
---
 include/ldaplusplus/LDA.hpp | 14 ++++++++++++++
 src/ldaplusplus/LDA.cpp     | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/ldaplusplus/LDA.hpp b/include/ldaplusplus/LDA.hpp
index e36782a..d8d621d 100644
--- a/include/ldaplusplus/LDA.hpp
+++ b/include/ldaplusplus/LDA.hpp
@@ -252,6 +252,20 @@ class LDA
          */
         void set_up_event_dispatcher();
 
+        /**
+         * Abandon the queued work and join the workers when a pass ends, even
+         * if it ends with an exception.
+         */
+        class WorkerPoolGuard
+        {
+            public:
+                explicit WorkerPoolGuard(LDA &lda) : lda_(lda) {}
+                ~WorkerPoolGuard();
+
+            private:
+                LDA &lda_;
+        };
+
         // The model parameters
         std::shared_ptr<parameters::Parameters> model_parameters_;
 
diff --git a/src/ldaplusplus/LDA.cpp b/src/ldaplusplus/LDA.cpp
index a068d9f..d0e888d 100644
--- a/src/ldaplusplus/LDA.cpp
+++ b/src/ldaplusplus/LDA.cpp
@@ -99,6 +99,7 @@ void LDA<Scalar>::partial_fit(std::shared_ptr<corpus::Corpus> corpus) {
     }
 
     // create the thread pool
+    WorkerPoolGuard guard(*this);
     create_worker_pool();
 
     // Extract variational parameters and calculate the doc_m_step
@@ -155,6 +156,7 @@ typename LDA<Scalar>::MatrixX LDA<Scalar>::transform(const Eigen::MatrixXi& X) {
     }
 
     // create the thread pool
+    WorkerPoolGuard guard(*this);
     create_worker_pool();
 
     // Extract variational parameters and calculate the doc_e_step
@@ -243,11 +245,23 @@ void LDA<Scalar>::create_worker_pool() {
 template <typename Scalar>
 void LDA<Scalar>::destroy_worker_pool() {
     for (auto & t : workers_) {
-        t.join();
+        if (t.joinable())
+            t.join();
     }
 }
 
 
+template <typename Scalar>
+LDA<Scalar>::WorkerPoolGuard::~WorkerPoolGuard() {
+    {
+        std::lock_guard<std::mutex> lock(lda_.queue_in_mutex_);
+        lda_.queue_in_.clear();
+    }
+    lda_.destroy_worker_pool();
+    lda_.queue_out_.clear();
+}
+
+
 template <typename Scalar>
 void LDA<Scalar>::doc_e_step_worker() {
     std::shared_ptr<corpus::Corpus> corpus;
-- 
2.43.0


From ea8b2e6df63e2568a65d7af735e38a6d98e0269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 17/25] fix: removing the first listener does not step before
 the list

---
 src/ldaplusplus/events/Events.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c9c7a27..c8d898b 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -77,10 +77,11 @@ void ThreadSafeEventDispatcher::process_events() {
 
         std::lock(l1, l2);
 
-        for (auto l=listeners_.begin(); l!=listeners_.end(); l++) {
+        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
             if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                 l = listeners_.erase(l);
-                l--;
+            } else {
+                l++;
             }
         }
 
-- 
2.43.0


From 8cfd63157558403a5ed8c22e2c560acc188044e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 18/25] fix: fast_exp(NaN) does not index outside of the table

---
 include/ldaplusplus/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/utils.hpp b/include/ldaplusplus/utils.hpp
index ab772c7..2b02194 100644
--- a/include/ldaplusplus/utils.hpp
+++ b/include/ldaplusplus/utils.hpp
@@ -362,7 +362,7 @@ static inline Scalar fast_exp(Scalar x) {
     if (x < 0)
         return 1/fast_exp(-x);
 
-    if (x > 100)
+    if (x > 100 || x != x)
         return std::exp(x);
 
     int cnt = 0;
-- 
2.43.0


From 7052e8d0947c037b671485037951e6743afb9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 19/25] fix: the first progress report of gradient descent is
 not garbage

---
 include/ldaplusplus/optimization/GradientDescent.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index e4a8107..453f8a6 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -185,7 +185,7 @@ class GradientDescent
          */
         void minimize(const ProblemType &problem, Eigen::Ref<ParameterType> x0) {
             // allocate memory for the gradient
-            ParameterType grad(x0.rows(), x0.cols());
+            ParameterType grad = ParameterType::Zero(x0.rows(), x0.cols());
 
             // Keep the value in this variable
             Scalar value = problem.value(x0);
-- 
2.43.0


From 5a3c77171402f94086562143cb6f219fed875d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 20/25] fix: the line search never moves to a point it has not
 evaluated

When the required decrease rounded to nothing the search moved 1/tau times
the direction and returned the value of the old point.
---
 include/ldaplusplus/optimization/GradientDescent.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/optimization/GradientDescent.hpp b/include/ldaplusplus/optimization/GradientDescent.hpp
index 453f8a6..2056479 100644
--- a/include/ldaplusplus/optimization/GradientDescent.hpp
+++ b/include/ldaplusplus/optimization/GradientDescent.hpp
@@ -122,11 +122,11 @@ class ArmijoLineSearch : public LineSearch<ProblemType, ParameterType>
             Scalar value = value_x0;
             Scalar a = 1.0/tau_;
 
-            while (value > value_x0 - a * decrease) {
+            do {
                 a *= tau_;
                 x_copy = x0 - a * direction;
                 value = problem.value(x_copy);
-            }
+            } while (value > value_x0 - a * decrease);
 
             x0 -= a * direction;
 
-- 
2.43.0


From 0a24823be5a865464346d092ce618aeebe736d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 21/25] fix: initialize the accumulated log likelihood of the M
 steps

---
 include/ldaplusplus/em/CorrespondenceSupervisedMStep.hpp | 2 +-
 include/ldaplusplus/em/MultinomialSupervisedMStep.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ldaplusplus/em/CorrespondenceSupervisedMStep.hpp b/include/ldaplusplus/em/CorrespondenceSupervisedMStep.hpp
index 10fe2af..2894ee7 100644
--- a/include/ldaplusplus/em/CorrespondenceSupervisedMStep.hpp
+++ b/include/ldaplusplus/em/CorrespondenceSupervisedMStep.hpp
@@ -34,7 +34,7 @@ class CorrespondenceSupervisedMStep : public MStepInterface<Scalar>
     
     public:
         CorrespondenceSupervisedMStep(Scalar mu = 2.)
-            : mu_(mu)
+            : mu_(mu), log_py_(0)
         {}
 
         /**
diff --git a/include/ldaplusplus/em/MultinomialSupervisedMStep.hpp b/include/ldaplusplus/em/MultinomialSupervisedMStep.hpp
index f1ed2e8..f0e2a55 100644
--- a/include/ldaplusplus/em/MultinomialSupervisedMStep.hpp
+++ b/include/ldaplusplus/em/MultinomialSupervisedMStep.hpp
@@ -15,7 +15,7 @@ class MultinomialSupervisedMStep : public MStepInterface<Scalar>
     
     public:
         MultinomialSupervisedMStep(Scalar mu = 2.)
-            : mu_(mu)
+            : mu_(mu), log_py_(0)
         {}
 
         /**
-- 
2.43.0


From b74af0051631df8f138549055b6e88d08b54a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 22/25] fix: do not truncate the likelihood reported for an
 epoch

---
 include/applications/EpochProgress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/applications/EpochProgress.hpp b/include/applications/EpochProgress.hpp
index 3bd247f..064fe16 100644
--- a/include/applications/EpochProgress.hpp
+++ b/include/applications/EpochProgress.hpp
@@ -20,7 +20,7 @@ class EpochProgress : public events::EventListenerInterface
 
     private:
        int em_iterations_;
-       int likelihood_;
+       double likelihood_;
        int cnt_likelihoods_;
        int is_first_time_;
 };
-- 
2.43.0


From 6c9c4c30d0e2f705f267c68ed1f3e04c356975cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:55 +0000
Subject: [PATCH 23/25] fix: words that no topic emits no longer make the
 supervised likelihood infinite or NaN

---
 src/ldaplusplus/e_step_utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ldaplusplus/e_step_utils.cpp b/src/ldaplusplus/e_step_utils.cpp
index ad7f0b0..7ccf73b 100644
--- a/src/ldaplusplus/e_step_utils.cpp
+++ b/src/ldaplusplus/e_step_utils.cpp
@@ -86,7 +86,8 @@ Scalar compute_supervised_likelihood(
     // E_q[log p(y | z,n)] approximated using Jensens inequality
     int n;
     for (n=X.rows()-1; n>=0; n--) {
-        if (X[n] > 0)
+        // skip words that no topic emits, like when computing h
+        if (X[n] > 0 && phi.col(n).sum() > 0)
             break;
     }
     // documents without words carry no information about their class
@@ -187,7 +188,8 @@ void compute_h(
 
     // Compute the products that will allow us to compute h for the last word
     for (int n=0; n<X.rows(); n++) {
-        if (X[n] == 0)
+        // Skip words that are not in the document or that no topic emits
+        if (X[n] == 0 || phi.col(n).sum() == 0)
             continue;
 
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
@@ -198,8 +200,8 @@ void compute_h(
     // Traverse words in reverse order in order to find the "last word" of the
     // document, that occurs at least one time in the document 
     for (int n=X.rows()-1; n>=0; n--) {
-        // Skip this word if it is not in the document
-        if (X[n] == 0)
+        // Skip this word if it is not in the document or no topic emits it
+        if (X[n] == 0 || phi.col(n).sum() == 0)
             continue;
 
         exp_eta_scaled = (eta * X_ratio[n]).unaryExpr(cwise_fast_exp);
-- 
2.43.0


From eb09afe4620db5a1e016f632a67ed4becdd18ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:03 +0000
Subject: [PATCH 24/25] fix: a listener may remove itself while the plain
 dispatcher delivers

---
 src/ldaplusplus/events/Events.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/events/Events.cpp b/src/ldaplusplus/events/Events.cpp
index c8d898b..0d73818 100644
--- a/src/ldaplusplus/events/Events.cpp
+++ b/src/ldaplusplus/events/Events.cpp
@@ -40,7 +40,10 @@ void EventDispatcher::remove_listener(std::shared_ptr<EventListenerInterface> li
 
 
 void EventDispatcher::dispatch(std::shared_ptr<Event> event) {
-    for (auto l : listeners_) {
+    // iterate over a copy because the listeners may add or remove listeners
+    auto listeners = listeners_;
+
+    for (auto l : listeners) {
         l->on_event(event);
     }
 }
-- 
2.43.0


From cb9d265ef40c0f4615d84f360dd257d0fb210e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 25/25] fix: a corpus whose labels are all negative has no
 class priors

The room for the class priors was the largest label plus one, a negative
number of classes when every label is below -1.
---
 src/ldaplusplus/Document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldaplusplus/Document.cpp b/src/ldaplusplus/Document.cpp
index b422aac..ddb8c29 100644
--- a/src/ldaplusplus/Document.cpp
+++ b/src/ldaplusplus/Document.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <numeric>
 #include <utility>
 
@@ -97,7 +98,7 @@ EigenClassificationCorpus::EigenClassificationCorpus(
 ) : indices_(X.cols(), random_state),
     X_(X),
     y_(y),
-    priors_(y.maxCoeff()+1)
+    priors_(y.rows() > 0 ? std::max(y.maxCoeff()+1, 0) : 0)
 {
     priors_.fill(0);
     for (int i=0; i<y_.rows(); i++) {
-- 
2.43.0

