From 05ffa48750170947e86243161cdcb0e0e9b3a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 01/64] fix: reject NaN for floating-point attributes with
 limits

---
 src/core/common/xmmAttribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.cpp b/src/core/common/xmmAttribute.cpp
index bdf3655..b6ca1e4 100644
--- a/src/core/common/xmmAttribute.cpp
+++ b/src/core/common/xmmAttribute.cpp
@@ -87,7 +87,7 @@ void xmm::checkLimits<long>(long const& value, long const& limit_min,
 template <>
 void xmm::checkLimits<float>(float const& value, float const& limit_min,
                              float const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
@@ -96,7 +96,7 @@ void xmm::checkLimits<float>(float const& value, float const& limit_min,
 template <>
 void xmm::checkLimits<double>(double const& value, double const& limit_min,
                               double const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
-- 
2.43.0


From 0bf9d539ecfd2e9cff3b7f7c0756012c9f2c8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 02/64] fix: input dimension of a new bimodal phrase or
 training set could equal the total dimension

---
 src/core/trainingset/xmmPhrase.cpp      | 2 +-
 src/core/trainingset/xmmTrainingSet.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..a92b8ed 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..ebab3f1 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
-- 
2.43.0


From 96b5dd441531f8f9fb91ea513545c29fe2a232d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 03/64] fix: switching shared parameters back to bimodal threw,
 the input dimension limit was not restored

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..03460c1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -146,7 +146,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
-- 
2.43.0


From ca3002d2584917d59e075d66116c521385210476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 04/64] fix: lowering the dimension left the input dimension at
 or above it

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 src/core/model/xmmModelSharedParameters.cpp        | 2 ++
 src/core/trainingset/xmmPhrase.cpp                 | 5 ++++-
 src/core/trainingset/xmmTrainingSet.cpp            | 2 ++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..1ac426a 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -137,6 +137,8 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 03460c1..d66d0f1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,6 +156,8 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         }
     } else if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1);
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index a92b8ed..92bb2e2 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -575,8 +575,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index ebab3f1..f0fb75e 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -152,6 +152,8 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From c54087afc76c4aa32db71757ea01de178a1e1f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 05/64] fix: a distribution loaded from Json had no dimension
 limits

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 1ac426a..1926fc1 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -86,7 +86,9 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
     bimodal_ = root.get("bimodal", false).asBool();
+    dimension.setLimitMin(bimodal_ ? 2 : 1);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
+    dimension_input.setLimits(0, bimodal_ ? dimension.get() - 1 : 0);
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
-- 
2.43.0


From 57ab666a02ee86ad587a10459ac5dbdd8a0d91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 06/64] fix: a distribution with diagonal covariance could not
 be loaded from Json

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 1926fc1..030785c 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -97,15 +97,15 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 
     json2vector(root["mean"], mean, dimension.get());
     json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(covariance.size()));
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(inverse_covariance_.size()));
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
 
-- 
2.43.0


From 4c72c75954cf47af98bd630e38d7544804682c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 07/64] fix: the output covariance of a distribution was saved
 but never loaded

---
 src/core/distributions/xmmGaussianDistribution.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 030785c..b502085 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -108,6 +108,14 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
                 static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (bimodal_ && root["output_covariance"].size() > 0) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(covariance_mode.get() == CovarianceMode::Full
+                                     ? dimension_output * dimension_output
+                                     : dimension_output);
+        json2vector(root["output_covariance"], output_covariance,
+                    static_cast<unsigned int>(output_covariance.size()));
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From ae9dc52ce3721007895284c1a4b67b9481e4763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:34 +0000
Subject: [PATCH 08/64] fix: rescaling a bimodal phrase wrote outside its
 output frames

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 92bb2e2..1c68600 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -521,8 +521,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From 0457993a65a4ceb28a77ecb9f480fd0a5df8c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 09/64] fix: changing a phrase's dimensions leaked its output
 array, or freed a shared one

---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 1c68600..5093ad7 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -564,14 +564,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 2743f04c40b3a4d4799ede565e7fdd1efd631648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 10/64] fix: copying an empty or shared phrase left its data
 pointers uninitialised

---
 src/core/trainingset/xmmPhrase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 5093ad7..9977d65 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 351f079f3e6cf9d75b93465fcc40caff798c463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 11/64] fix: assigning a phrase of another memory mode or
 modality used a stale pointer table

---
 src/core/trainingset/xmmPhrase.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 9977d65..f324ff8 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -164,12 +164,12 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
                 } catch (std::exception& e) {
                 }
             }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
         }
+        try {
+            delete[] data_;
+        } catch (std::exception& e) {
+        }
+        data_ = NULL;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -182,8 +182,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From dc10f22edd6ad227a5c20c2ae8453d4638600df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 12/64] fix: assigning an attribute copied the listener of the
 source attribute

---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From a68aee07c3063b2fe4825094447c396045a0adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 13/64] fix: assigning HMM parameters did not copy the
 hierarchical option

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..e5bb122 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 2c0e79d38d945179b5709b3ec3719201721f78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 14/64] fix: JsonException::what() returned a pointer to a
 destroyed string

---
 src/core/common/xmmJson.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..ed2d646 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -211,7 +211,8 @@ class JsonException : public std::exception {
         message += " (root";
         for (auto& node : nodename_) message += " > " + node;
         message += ")";
-        return message.c_str();
+        message_ = message;
+        return message_.c_str();
     }
 
   private:
@@ -224,6 +225,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Message returned by what(), which lives as long as the exception
+     */
+    mutable std::string message_;
 };
 
 /**
-- 
2.43.0


From e26f5f18f9f03fb0b72f13b3dc223160ce74b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 15/64] fix: loading a document with too many column names
 wrote out of bounds

---
 src/core/trainingset/xmmPhrase.cpp      | 3 +++
 src/core/trainingset/xmmTrainingSet.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index f324ff8..510a490 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -116,6 +116,9 @@ xmm::Phrase::Phrase(Json::Value const& root)
         dimension_input.setLimits(0, 0);
     }
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index f0fb75e..619ab09 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -87,6 +87,9 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
     }
-- 
2.43.0


From 4b32ef63503809108cc062a388e3d88f91108dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 16/64] fix: a copied training set shared the phrases of its
 source

---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 619ab09..6843029 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From 378902f1d211cf7c47a406213a78a60cb7fe2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 17/64] fix: a training set kept listening to the phrases that
 left it

---
 src/core/trainingset/xmmTrainingSet.cpp | 25 ++++++++++++++++++++++---
 src/core/trainingset/xmmTrainingSet.hpp |  6 ++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 6843029..d9a9e00 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -130,7 +130,7 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() { clear(); }
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -224,6 +224,7 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -237,7 +238,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> copied_phrase = std::make_shared<Phrase>(phrase);
+    releasePhrase(phraseIndex);
+    phrases_[phraseIndex] = copied_phrase;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -246,6 +249,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -253,10 +257,21 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    releasePhrase(phraseIndex);
     update();
 }
 
+void xmm::TrainingSet::releasePhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> phrase = it->second;
+    phrases_.erase(it);
+    for (auto &other : phrases_) {
+        if (other.second == phrase) return;
+    }
+    phrase->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
     bool contLoop(true);
     while (contLoop) {
@@ -274,6 +289,10 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_.clear();
     labels_.clear();
 }
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..5d5b193 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -325,6 +325,12 @@ class TrainingSet : public Writable {
      */
     virtual void update();
 
+    /**
+     @brief take a phrase out of the set and stop listening to its events
+     @param phraseIndex index of the phrase
+     */
+    void releasePhrase(int phraseIndex);
+
     /**
      @brief defines if the phrase has its own memory
      */
-- 
2.43.0


From 61fcaab944716d1180e340ee597eb526cc82312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:07 +0000
Subject: [PATCH 18/64] fix: the subsets of a training set kept the limits and
 columns of the previous dimension

---
 src/core/trainingset/xmmTrainingSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index d9a9e00..4e49bce 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -150,7 +150,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension.set(dimension.get(), true);
+            it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
-- 
2.43.0


From 68fef2e8fae496c5ea54c46799444bb9d671aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:17 +0000
Subject: [PATCH 19/64] fix: setting the covariance mode to its current value
 corrupted the covariance

---
 .../distributions/xmmGaussianDistribution.cpp | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index b502085..baf7388 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -155,21 +155,25 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     }
     if (attr_pointer == &covariance_mode) {
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
-            std::vector<double> new_covariance(dimension.get());
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d] = covariance[d * dimension.get() + d];
+            if (covariance.size() > dimension.get()) {
+                std::vector<double> new_covariance(dimension.get());
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d] = covariance[d * dimension.get() + d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
         } else if (covariance_mode.get() == CovarianceMode::Full) {
-            std::vector<double> new_covariance(
-                dimension.get() * dimension.get(), 0.0);
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d * dimension.get() + d] = covariance[d];
+            if (covariance.size() < dimension.get() * dimension.get()) {
+                std::vector<double> new_covariance(
+                    dimension.get() * dimension.get(), 0.0);
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d * dimension.get() + d] = covariance[d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get() * dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get() *
-- 
2.43.0


From 3112ee9e50c28e1ec623e99550f929be4dc7a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 20/64] fix: the classes of a copied model kept using the
 parameters of the source model

---
 src/core/model/xmmModel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..cddc9a8 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.shared_parameters = shared_parameters;
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.shared_parameters = shared_parameters;
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
-- 
2.43.0


From d4f1c816024111e9b9c8d3fe247049f9978631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 21/64] fix: a model refusing a training set remained in
 training for ever

---
 src/core/model/xmmModel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index cddc9a8..b82b2df 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -250,8 +250,6 @@ class Model : public Writable {
         cancelTraining();
         clear();
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -278,6 +276,8 @@ class Model : public Writable {
             addModelForClass(*it);
         }
 
+        is_training_ = true;
+
         // Start class training
         for (auto it = this->models.begin(); it != this->models.end(); ++it) {
             it->second.is_training_ = true;
@@ -331,8 +331,6 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -343,6 +341,8 @@ class Model : public Writable {
 
         addModelForClass(label);
 
+        is_training_ = true;
+
         // Start class training
         models[label].is_training_ = true;
         models[label].cancel_training_ = false;
-- 
2.43.0


From de91c704f014f29f9e8b5c214326941b1fb0e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 22/64] fix: sequential training kept the classes whose
 training failed and never ended

---
 src/core/model/xmmModel.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index b82b2df..4b95a04 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -294,12 +294,9 @@ class Model : public Writable {
                 it->second.train(trainingSet->getPhrasesOfClass(it->first));
             }
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
@@ -354,12 +351,9 @@ class Model : public Writable {
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
-- 
2.43.0


From e0a612f620f5c59bea2380cbfdd421fb73af53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 23/64] fix: a listener throwing an exception left the model's
 event mutex locked

---
 src/core/model/xmmModel.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 4b95a04..40aa59b 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -518,7 +518,7 @@ class Model : public Writable {
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
@@ -538,7 +538,6 @@ class Model : public Writable {
                     .detach();
             }
         }
-        event_mutex_.unlock();
     }
 
     /**
-- 
2.43.0


From 05408e9e6aa403c9fb9f0ae7a5054529608ec535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:09 +0000
Subject: [PATCH 24/64] fix: an exception during training left the training
 mutex locked

---
 src/core/model/xmmModelSingleClass.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..3d5e92b 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -112,7 +112,7 @@ bool xmm::SingleClassProbabilisticModel::isTraining() const {
 #pragma mark -
 #pragma mark Training
 void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
-    training_mutex_.lock();
+    std::lock_guard<std::mutex> lock(training_mutex_);
     bool trainingError(false);
 
     training_status.status = TrainingEvent::Status::Run;
@@ -159,7 +159,6 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
         if (trainingError) {
             is_training_ = false;
-            training_mutex_.unlock();
             training_status.status = TrainingEvent::Status::Error;
             training_events.notifyListeners(training_status);
             return;
@@ -182,8 +181,6 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
     if (cancelTrainingIfRequested()) return;
     this->emAlgorithmTerminate();
-
-    training_mutex_.unlock();
 }
 
 bool xmm::SingleClassProbabilisticModel::emAlgorithmHasConverged(
@@ -212,7 +209,6 @@ void xmm::SingleClassProbabilisticModel::cancelTraining() {
 
 bool xmm::SingleClassProbabilisticModel::cancelTrainingIfRequested() {
     if (!cancel_training_) return false;
-    training_mutex_.unlock();
     training_status.label = label;
     training_status.status = TrainingEvent::Status::Cancel;
     training_events.notifyListeners(training_status);
-- 
2.43.0


From 41d02806f185581fca71248cb39fdbbe98b1c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 25/64] fix: a failing class was no longer in training before
 it had reported the error

---
 src/core/model/xmmModelSingleClass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 3d5e92b..912ff2c 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -158,9 +158,9 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             trainingError = true;
 
         if (trainingError) {
-            is_training_ = false;
             training_status.status = TrainingEvent::Status::Error;
             training_events.notifyListeners(training_status);
+            is_training_ = false;
             return;
         }
 
-- 
2.43.0


From 21fd295042245791f0d113b8fe6b85ac5e684715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 26/64] fix: inadmissible parameters terminated the training
 thread instead of reporting an error

---
 src/core/model/xmmModelSingleClass.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 912ff2c..ccf58c7 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -118,7 +118,11 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
     training_status.status = TrainingEvent::Status::Run;
 
     if (trainingSet && !trainingSet->empty()) {
-        this->allocate();
+        try {
+            this->allocate();
+        } catch (std::exception& e) {
+            trainingError = true;
+        }
     } else {
         trainingError = true;
     }
-- 
2.43.0


From 3b1a6f90687c243e185d2e0b5e06abd6f36e86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:18 +0000
Subject: [PATCH 27/64] fix: removing a class during training threw after
 removing it

---
 src/core/model/xmmModel.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 40aa59b..072a196 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -209,12 +209,11 @@ class Model : public Writable {
     virtual void removeClass(std::string const& label) {
         while (is_joining_) {
         }
-        cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
+        if (models.count(label) == 0)
             throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
-        reset();
+        cancelTraining(label);
+        models.erase(label);  // no-op if removed when its training was canceled
+        if (!is_training_) reset();
     }
 
     /**
-- 
2.43.0


From c0f9948e2ffd63cc2afb5c05bd378dce417a3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 28/64] fix: a copied or loaded class wrote past its empty
 likelihood buffer

---
 src/core/model/xmmModelSingleClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index ccf58c7..23e9597 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -62,6 +62,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
         throw std::runtime_error("Cannot copy: target model is still training");
     if (src.is_training_)
         throw std::runtime_error("Cannot copy: source model is still training");
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
@@ -78,6 +79,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     }
     label = root["label"].asString();
     training_status.label = label;
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel& xmm::SingleClassProbabilisticModel::
@@ -94,6 +96,7 @@ operator=(SingleClassProbabilisticModel const& src) {
         shared_parameters = src.shared_parameters;
         is_training_ = false;
         cancel_training_ = false;
+        likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
     }
     return *this;
 };
-- 
2.43.0


From e79832403355b240218c755fa79d62d0498b4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 29/64] fix: filtering with a model loaded from Json wrote past
 its empty results

---
 src/models/gmm/xmmGmm.cpp             | 4 +++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..c566f32 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..277f3ee 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    reset();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
-- 
2.43.0


From 25794d38decd7fc02c05611f4f6d1f682deff442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 30/64] fix: a new, copied or no longer hierarchical HMM
 filtered with an uninitialised forward state

---
 src/models/hmm/xmmHmmSingleClass.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..5aa3f16 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      forward_initialized_(false),
+      is_hierarchical_(true) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -41,6 +43,7 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       states(src.states),
       prior(src.prior),
       transition(src.transition),
+      forward_initialized_(false),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
     alpha.resize(parameters.states.get());
@@ -51,7 +54,9 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      forward_initialized_(false),
+      is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
     allocate();
@@ -79,6 +84,7 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     if (this != &src) {
         SingleClassProbabilisticModel::operator=(src);
 
+        forward_initialized_ = false;
         is_hierarchical_ = src.is_hierarchical_;
         parameters = src.parameters;
         transition = src.transition;
@@ -340,6 +346,7 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
     unsigned int numStates = parameters.states.get();
 
     double norm_const(0.);
+    alpha.resize(numStates);
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
         for (int i = 0; i < numStates; i++) {
             if (shared_parameters->bimodal.get()) {
-- 
2.43.0


From a55c884958ca45c87f89472eeb58b4f84dd63516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 31/64] fix: the first likelihood after a reset included the
 likelihood of the previous sequence

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 277f3ee..c66c680 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -161,6 +161,7 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         // primitive
         if (model.second.parameters.transition_mode.get() ==
             HMM::TransitionMode::Ergodic) {
+            model.second.results.instant_likelihood = 0.0;
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-- 
2.43.0


From b0013dd70f5d7bf3286ba23c36d930d7e5ff5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 32/64] fix: regression from the likeliest state left its
 output covariance at zero

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5aa3f16..e76136d 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1220,6 +1220,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From 30248c88d4d1b64d31d69aa2cdf0c2f78b0539fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 33/64] fix: non-hierarchical filtering recorded each
 likelihood twice

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index c66c680..f39baa9 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -396,6 +396,12 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         } else {
             this->forward_init(observation);
         }
+
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
         int i(0);
         for (auto &model : models) {
@@ -404,11 +410,6 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
-- 
2.43.0


From b0c03dcc5d541713425cc096333615c53f778c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 34/64] fix: bimodal observation probabilities of an unknown
 component read out of bounds

---
 src/models/gmm/xmmGmmSingleClass.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..d96b46f 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -267,6 +267,9 @@ double xmm::SingleClassGMM::obsProb_input(const float* observation_input,
             p += obsProb_input(observation_input, mixtureComponent);
         }
     } else {
+        if (mixtureComponent >= parameters.gaussians.get())
+            throw std::out_of_range(
+                "The index of the Gaussian Mixture Component is out of bounds");
         p = mixture_coeffs[mixtureComponent] *
             components[mixtureComponent].likelihood_input(observation_input);
     }
@@ -290,6 +293,9 @@ double xmm::SingleClassGMM::obsProb_bimodal(const float* observation_input,
                                  mixtureComponent);
         }
     } else {
+        if (mixtureComponent >= parameters.gaussians.get())
+            throw std::out_of_range(
+                "The index of the Gaussian Mixture Component is out of bounds");
         p = mixture_coeffs[mixtureComponent] *
             components[mixtureComponent].likelihood_bimodal(observation_input,
                                                             observation_output);
-- 
2.43.0


From ee56ec6eb1eded8d1a53520562c9f3b2c63e17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 35/64] fix: loading a document with too many components or
 states wrote out of bounds

---
 src/models/gmm/xmmGmmSingleClass.cpp | 3 +++
 src/models/hmm/xmmHmmSingleClass.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index d96b46f..d4db406 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -55,6 +55,9 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     json2vector(root["mixture_coeffs"], mixture_coeffs,
                 parameters.gaussians.get());
 
+    if (root["components"].size() != parameters.gaussians.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
     int c(0);
     for (auto p : root["components"]) {
         components[c++].fromJson(p);
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index e76136d..71eafec 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -74,6 +74,9 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                     parameters.states.get());
     }
 
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
     int s(0);
     for (auto p : root["states"]) {
         states[s++].fromJson(p);
-- 
2.43.0


From c3d3eeee89652538953243f22df0c2f78be243d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 36/64] fix: clearing the input or output of a unimodal phrase
 left stale lengths

---
 src/core/trainingset/xmmPhrase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 510a490..83abcee 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -435,7 +435,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     input_length_ = 0;
     trim();
 }
@@ -443,7 +446,10 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     output_length_ = 0;
     trim();
 }
-- 
2.43.0


From 7b8ec44b9a198c5ca60847a0d9a937d0c3be83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 37/64] fix: a phrase whose data could not be read from Json
 leaked its arrays

---
 src/core/trainingset/xmmPhrase.cpp | 44 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 83abcee..ab184c8 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -119,9 +119,6 @@ xmm::Phrase::Phrase(Json::Value const& root)
     if (root["column_names"].size() > dimension.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
                             "column_names");
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
 
     column_names.resize(dimension.get(), "");
     for (int i = 0; i < root["column_names"].size(); i++) {
@@ -136,21 +133,32 @@ xmm::Phrase::Phrase(Json::Value const& root)
     output_length_ = length_;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
-    if (bimodal_) {
-        data_[0] =
-            reallocate<float>(data_[0], max_length_ * dimension_input.get(),
-                              length_ * dimension_input.get());
-        data_[1] = reallocate<float>(
-            data_[1], max_length_ * (dimension.get() - dimension_input.get()),
-            length_ * (dimension.get() - dimension_input.get()));
-        json2array(root["data_input"], data_[0],
-                   length_ * dimension_input.get());
-        json2array(root["data_output"], data_[1],
-                   length_ * (dimension.get() - dimension_input.get()));
-    } else {
-        data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
-                                     length_ * dimension.get());
-        json2array(root["data"], data_[0], length_ * dimension.get());
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
+
+    try {
+        if (bimodal_) {
+            data_[0] =
+                reallocate<float>(data_[0], max_length_ * dimension_input.get(),
+                                  length_ * dimension_input.get());
+            data_[1] = reallocate<float>(
+                data_[1], max_length_ * (dimension.get() - dimension_input.get()),
+                length_ * (dimension.get() - dimension_input.get()));
+            json2array(root["data_input"], data_[0],
+                       length_ * dimension_input.get());
+            json2array(root["data_output"], data_[1],
+                       length_ * (dimension.get() - dimension_input.get()));
+        } else {
+            data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
+                                         length_ * dimension.get());
+            json2array(root["data"], data_[0], length_ * dimension.get());
+        }
+    } catch (...) {
+        if (bimodal_) delete[] data_[1];
+        delete[] data_[0];
+        delete[] data_;
+        throw;
     }
 }
 
-- 
2.43.0


From 19da4238d57cad4801869fd0795a52eb7ffd0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 38/64] fix: copied k-means had no or stale shared parameters
 and results

---
 src/models/kmeans/xmmKMeans.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..9aa2c07 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,14 +48,20 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
+      results(src.results),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
         initialization_mode = src.initialization_mode;
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         configuration = src.configuration;
+        results = src.results;
         centers = src.centers;
     }
     return *this;
-- 
2.43.0


From a837657764af880b00ab2ba56fc7f7ad9ccbed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 39/64] fix: filtering with an untrained or never reset k-means
 wrote out of bounds

---
 src/models/kmeans/xmmKMeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 9aa2c07..73c9ac7 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -210,6 +210,9 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    if (centers.size() != configuration.clusters.get() * dimension)
+        throw std::runtime_error("The k-means clusters are not trained");
+    results.distances.resize(configuration.clusters.get(), 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From fd9d1f137597b60f907400a344ccd7578fad1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 40/64] fix: mixing classes of different covariance modes read
 out of bounds

---
 src/models/gmm/xmmGmm.cpp             | 19 +++++++++++--------
 src/models/hmm/xmmHierarchicalHmm.cpp | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index c566f32..660c39f 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -131,21 +131,22 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
 
         } else {
             results.output_values.assign(dimension_output, 0.0);
+            bool full = configuration.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full;
             results.output_covariance.assign(
-                (configuration.covariance_mode.get() ==
-                 GaussianDistribution::CovarianceMode::Full)
-                    ? dimension_output * dimension_output
-                    : dimension_output,
+                full ? dimension_output * dimension_output : dimension_output,
                 0.0);
 
             int i(0);
             for (auto& model : models) {
+                bool model_full =
+                    model.second.parameters.covariance_mode.get() ==
+                    GaussianDistribution::CovarianceMode::Full;
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
+                    if (full && model_full) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -154,9 +155,11 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                                     .output_covariance[d * dimension_output +
                                                        d2];
                     } else {
-                        results.output_covariance[d] +=
+                        results.output_covariance[full ? d * dimension_output + d
+                                                       : d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [model_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f39baa9..31dfd2f 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -429,22 +429,23 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                 this->models[results.likeliest].results.output_covariance;
         } else {
             results.output_values.assign(dimension_output, 0.0);
+            bool full = configuration.covariance_mode.get() ==
+                        GaussianDistribution::CovarianceMode::Full;
             results.output_covariance.assign(
-                (configuration.covariance_mode.get() ==
-                 GaussianDistribution::CovarianceMode::Full)
-                    ? dimension_output * dimension_output
-                    : dimension_output,
+                full ? dimension_output * dimension_output : dimension_output,
                 0.0);
 
             int i(0);
             for (auto &model : models) {
+                bool model_full =
+                    model.second.parameters.covariance_mode.get() ==
+                    GaussianDistribution::CovarianceMode::Full;
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
 
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
+                    if (full && model_full) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -453,9 +454,11 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                                     .output_covariance[d * dimension_output +
                                                        d2];
                     } else {
-                        results.output_covariance[d] +=
+                        results.output_covariance[full ? d * dimension_output + d
+                                                       : d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [model_full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
-- 
2.43.0


From aa291efe171909662dd0651f7dd36618f354ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:32 +0000
Subject: [PATCH 41/64] fix: pseudo-inverse of a matrix leaked its intermediate
 results

---
 src/core/common/xmmMatrix.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..b78b397 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -36,6 +36,7 @@
 #include <cmath>
 #include <exception>
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -240,22 +241,17 @@ class Matrix {
             }
         }
 
-        inverse = new Matrix<T>(ncols, nrows);
-        Matrix<T> *transp, *prod, *dst;
-        transp = this->transpose();
+        std::unique_ptr<Matrix<T>> transp(this->transpose()), prod, dst;
         if (nrows >= ncols) {
-            prod = transp->product(this);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = dst->product(transp);
+            prod.reset(transp->product(this));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = dst->product(transp.get());
         } else {
-            prod = this->product(transp);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = transp->product(dst);
+            prod.reset(this->product(transp.get()));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = transp->product(dst.get());
         }
         *det = 0;
-        delete transp;
-        delete prod;
-        delete dst;
         return inverse;
     }
 
-- 
2.43.0


From f99119036a77adf1924e95ff61f8d1403db4b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 42/64] fix: resizing a matrix left it addressing released
 storage

---
 src/core/common/xmmMatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b78b397..8b56bb1 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -152,6 +152,7 @@ class Matrix {
         nrows = nrows_;
         ncols = ncols_;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
@@ -164,6 +165,7 @@ class Matrix {
         nrows = nrows_;
         ncols = nrows;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
-- 
2.43.0


From 98949753643f2989538ecdc028a228fb1752bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 43/64] fix: a copied matrix addressed the storage of its
 source

---
 src/core/common/xmmMatrix.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 8b56bb1..52767e2 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -142,6 +142,35 @@ class Matrix {
         data = data_it;
     }
 
+    /**
+     @brief Copy Constructor
+     @param src Source matrix (data is duplicated if the source owns it)
+     */
+    Matrix(Matrix const &src)
+        : nrows(src.nrows),
+          ncols(src.ncols),
+          _data(src._data),
+          data(src.data),
+          ownData(src.ownData) {
+        if (ownData) data = _data.begin();
+    }
+
+    /**
+     @brief Assignment
+     @param src Source matrix (data is duplicated if the source owns it)
+     */
+    Matrix &operator=(Matrix const &src) {
+        if (this != &src) {
+            nrows = src.nrows;
+            ncols = src.ncols;
+            _data = src._data;
+            ownData = src.ownData;
+            data = src.data;
+            if (ownData) data = _data.begin();
+        }
+        return *this;
+    }
+
     /**
      @brief Resize the matrix
      @param nrows_ Number of rows
-- 
2.43.0


From 839621fa2abf1e696dc976e61e9b7a2b2b7607cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 44/64] fix: phrase length from Json could overflow the size of
 its data

---
 src/core/trainingset/xmmPhrase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index ab184c8..7fa6de2 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -127,7 +127,12 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    int length = root.get("length", 0).asInt();
+    if (length < 0 ||
+        length > std::numeric_limits<int>::max() / int(dimension.get()))
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "length");
+    length_ = static_cast<unsigned int>(length);
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = length_;
-- 
2.43.0


From 515c0b8b487afdd367de4b433baeb989db91ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 45/64] fix: shared parameters could not be made unimodal again

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index d66d0f1..f651ba8 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -151,7 +151,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-- 
2.43.0


From b28bb36ce56e19b3739b2d7aa806b39095daa649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 46/64] fix: the states of a copied hierarchical HMM kept the
 source's shared parameters

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 31dfd2f..ab7007d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -45,6 +45,10 @@ xmm::HierarchicalHMM::HierarchicalHMM(HierarchicalHMM const &src)
     frontier_v1_ = src.frontier_v1_;
     frontier_v2_ = src.frontier_v2_;
     forward_initialized_ = false;
+    for (auto &model : models) {
+        for (auto &state : model.second.states)
+            state.shared_parameters = shared_parameters;
+    }
 }
 
 xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
@@ -72,6 +76,10 @@ xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
         frontier_v1_ = src.frontier_v1_;
         frontier_v2_ = src.frontier_v2_;
         forward_initialized_ = false;
+        for (auto &model : models) {
+            for (auto &state : model.second.states)
+                state.shared_parameters = shared_parameters;
+        }
     }
     return *this;
 }
-- 
2.43.0


From 3da3762e78c924fbeba12fed2681c73c087e9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 47/64] fix: saving and loading a k-means model did nothing

---
 src/models/kmeans/xmmKMeans.cpp | 77 +++++++++++++--------------------
 src/models/kmeans/xmmKMeans.hpp |  6 +++
 2 files changed, 35 insertions(+), 48 deletions(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 73c9ac7..fb85283 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -55,6 +55,23 @@ xmm::KMeans::KMeans(KMeans const& src)
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
+xmm::KMeans::KMeans(Json::Value const& root)
+    : shared_parameters(std::make_shared<SharedParameters>()),
+      initialization_mode(InitializationMode::Random) {
+    shared_parameters->fromJson(root["shared_parameters"]);
+    configuration.fromJson(root["configuration"]);
+    if (root.get("initialization_mode", 0).asInt() ==
+        static_cast<int>(InitializationMode::Biased))
+        initialization_mode = InitializationMode::Biased;
+    // an untrained model has no centers
+    if (root["centers"].size() > 0) {
+        centers.resize(configuration.clusters.get() *
+                       shared_parameters->dimension.get());
+        json2vector(root["centers"], centers,
+                    static_cast<unsigned int>(centers.size()));
+    }
+}
+
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
         initialization_mode = src.initialization_mode;
@@ -228,57 +245,21 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
 #pragma mark -
 #pragma mark File IO
 Json::Value xmm::KMeans::toJson() const {
-    //    JSONNode json_model(JSON_NODE);
-    //    json_model.set_name("KMeans");
-    //
-    //    json_model.push_back(JSONNode("dimension", dimension_));
-    //    json_model.push_back(JSONNode("nbclusters", nbClusters_));
-    //    json_model.push_back(vector2json(centers, "centers"));
-
-    return Json::Value();
+    Json::Value root;
+    root["shared_parameters"] = shared_parameters->toJson();
+    root["configuration"] = configuration.toJson();
+    root["initialization_mode"] = static_cast<int>(initialization_mode);
+    root["centers"] = vector2json(centers);
+    return root;
 }
 
 void xmm::KMeans::fromJson(Json::Value const& root) {
-    //    try {
-    //        if (root.type() != JSON_NODE)
-    //            throw JSONException("Wrong type: was expecting 'JSON_NODE'",
-    //            root.name());
-    //        JSONNode::const_iterator root_it = root.begin();
-    //
-    //        // Get Dimension
-    //        root_it = root.find("dimension");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'dimension': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        dimension_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Number of Clusters
-    //        root_it = root.find("nbclusters");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_NUMBER)
-    //            throw JSONException("Wrong type for node 'nbclusters': was
-    //            expecting 'JSON_NUMBER'", root_it->name());
-    //        nbClusters_ = static_cast<unsigned int>(root_it->as_int());
-    //
-    //        // Get Cluster Centers
-    //        root_it = root.find("centers");
-    //        if (root_it == root.end())
-    //            throw JSONException("JSON Node is incomplete",
-    //            root_it->name());
-    //        if (root_it->type() != JSON_ARRAY)
-    //            throw JSONException("Wrong type for node 'centers': was
-    //            expecting 'JSON_ARRAY'", root_it->name());
-    //        json2vector(*root_it, centers, nbClusters_);
-    //    } catch (JSONException &e) {
-    //        throw JSONException(e, root.name());
-    //    } catch (std::exception &e) {
-    //        throw JSONException(e, root.name());
-    //    }
+    try {
+        KMeans tmp(root);
+        *this = tmp;
+    } catch (JsonException& e) {
+        throw e;
+    }
 }
 
 #pragma mark > Utility
diff --git a/src/models/kmeans/xmmKMeans.hpp b/src/models/kmeans/xmmKMeans.hpp
index a926f44..4bacc26 100644
--- a/src/models/kmeans/xmmKMeans.hpp
+++ b/src/models/kmeans/xmmKMeans.hpp
@@ -75,6 +75,12 @@ class KMeans : public Writable {
      */
     KMeans(KMeans const& src);
 
+    /**
+     @brief Constructor from Json Structure
+     @param root Json Value
+     */
+    explicit KMeans(Json::Value const& root);
+
     /**
      @brief Assignment
      @param src Source Model
-- 
2.43.0


From 9763187b1cff228f306cbaa43e84cad41c2d7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 48/64] fix: double parameters were read back with single
 precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index f651ba8..49bf7d6 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index e5bb122..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From c17f1fb0a2fa7f34cfe3402786c08188339dacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 49/64] fix: a model could be saved while its training was not
 finished

---
 src/core/model/xmmModel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 072a196..2080ac8 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -425,6 +425,7 @@ class Model : public Writable {
      @return Json value containing the object's information
      */
     virtual Json::Value toJson() const {
+        checkTraining();
         Json::Value root;
         root["shared_parameters"] = shared_parameters->toJson();
         root["configuration"] = configuration.toJson();
-- 
2.43.0


From c592d8f4ecfc271f2118584d8f925a3ff200af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 50/64] fix: the mixture model could be reset while its
 training was not finished

---
 src/models/gmm/xmmGmm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 660c39f..7d21d4a 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -86,6 +86,7 @@ void xmm::GMM::updateResults() {
 #pragma mark -
 #pragma mark Performance
 void xmm::GMM::reset() {
+    checkTraining();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
-- 
2.43.0


From 2e9347a37b839bd38bc960c97b5da1a622a18e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 51/64] fix: classes could not be removed from or retrained in
 a hierarchical HMM filtering non-hierarchically

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index ab7007d..3839a0e 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -143,7 +143,8 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        model.second.updateExitProbabilities();
+        if (model.second.is_hierarchical_)
+            model.second.updateExitProbabilities();
     }
 }
 
-- 
2.43.0


From 7d815df2787da334b3f2fc36f7f87e6a26e77731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 52/64] fix: the exit probabilities of a retrained class kept
 their former size

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 71eafec..8fa9565 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -130,7 +130,8 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    exit_probabilities_.resize(numStates, 0.0);
+    exit_probabilities_[numStates - 1] = DEFAULT_EXITPROBABILITY_LAST_STATE();
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
-- 
2.43.0


From 3059581e38c30ebc99952d0085e31d86a70255de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 53/64] fix: a training in the background could be joined
 before all its classes were started

---
 src/core/model/xmmModel.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 2080ac8..8a1873a 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -278,6 +278,10 @@ class Model : public Writable {
         is_training_ = true;
 
         // Start class training
+        // (the end of a training is handled once all classes are started)
+        std::unique_lock<std::mutex> starting(event_mutex_, std::defer_lock);
+        if (configuration.multithreading != MultithreadingMode::Sequential)
+            starting.lock();
         for (auto it = this->models.begin(); it != this->models.end(); ++it) {
             it->second.is_training_ = true;
             it->second.cancel_training_ = false;
@@ -293,6 +297,7 @@ class Model : public Writable {
                 it->second.train(trainingSet->getPhrasesOfClass(it->first));
             }
         }
+        if (starting.owns_lock()) starting.unlock();
         if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-- 
2.43.0


From 612f709ab67c129d7c45039719e1ed7fa7818cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 54/64] fix: retraining a class while others train in the
 background aborted the program

---
 src/core/model/xmmModel.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8a1873a..70d58bd 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -344,7 +344,18 @@ class Model : public Writable {
 
         is_training_ = true;
 
+        // Release the former training of the class
+        auto former = training_threads_.find(label);
+        if (former != training_threads_.end()) {
+            former->second.join();
+            training_threads_.erase(former);
+        }
+
         // Start class training
+        // (the end of a training is handled once the class is started)
+        std::unique_lock<std::mutex> starting(event_mutex_, std::defer_lock);
+        if (configuration.multithreading != MultithreadingMode::Sequential)
+            starting.lock();
         models[label].is_training_ = true;
         models[label].cancel_training_ = false;
         models_still_training_++;
@@ -355,6 +366,7 @@ class Model : public Writable {
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
         }
+        if (starting.owns_lock()) starting.unlock();
         if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-- 
2.43.0


From 8e9450158c19419573a51717da39e905aa2d4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 55/64] fix: cancelling a class while the last one ended could
 leave the training unfinished

---
 src/core/model/xmmModel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 70d58bd..9d93a09 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -398,6 +398,8 @@ class Model : public Writable {
             models[label].cancelTraining();
             while (models[label].isTraining()) {
             }
+            // (the request is withdrawn first: the last class may end meanwhile)
+            cancel_required_ = false;
             if (models_still_training_ == 0) {
                 joinTraining();
             }
-- 
2.43.0


From 9a7ed8f714155f36ffabaded112098fe717ace10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 56/64] fix: the end of the training of a hierarchical HMM was
 announced before its transitions were updated

---
 src/core/model/xmmModel.hpp           | 6 ++++++
 src/models/hmm/xmmHierarchicalHmm.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 9d93a09..6dd88a2 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -495,6 +495,11 @@ class Model : public Writable {
     std::map<std::string, SingleClassModel> models;
 
   protected:
+    /**
+     @brief Updates the parameters that depend on the list of classes, if any
+     */
+    virtual void updateTransitionParameters() {}
+
     /**
      @brief Finishes the background training process by joining threads and
      deleting the models which training failed
@@ -522,6 +527,7 @@ class Model : public Writable {
                     }
                 }
             }
+            updateTransitionParameters();
             is_joining_ = false;
             is_training_ = false;
             reset();
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..b9d3fbd 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -223,7 +223,7 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      @brief update high-level parameters when a new primitive is learned
      @details  updated parameters: prior probabilities + transition matrix
      */
-    void updateTransitionParameters();
+    virtual void updateTransitionParameters();
 
     /**
      @brief ergodic learning update high-level prior probabilities -> equal
-- 
2.43.0


From 40426cb03a575b532be30242f85735f86b884342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 57/64] fix: states of a hidden Markov model without data kept
 stale inverse covariances

---
 src/models/hmm/xmmHmmSingleClass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 8fa9565..d13ad2d 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -282,7 +282,10 @@ void xmm::SingleClassHMM::initMeansCovariancesWithGMMEM(
                 temp_ts.getPhrase(phrase_it->first)
                     ->connect(phrase_it->second->getPointer(n * step), step);
         }
-        if (temp_ts.empty()) continue;
+        if (temp_ts.empty()) {
+            states[n].updateInverseCovariances();
+            continue;
+        }
         SingleClassGMM tmpGMM(shared_parameters);
         tmpGMM.parameters.gaussians.set(parameters.gaussians.get());
         tmpGMM.parameters.relative_regularization.set(
-- 
2.43.0


From a9faa2dab36ab057d8ec1752571bb452ed4bdb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 58/64] fix: setting a covariance from an ellipse of angle zero
 divided by zero

---
 src/core/distributions/xmmGaussianDistribution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index baf7388..2411e4f 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -570,9 +570,10 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    double weight = (eigenVal1 - eigenVal2) / (tantheta * tantheta + 1.);
+    b = weight * tantheta;
+    c = eigenVal1 - weight;
+    a = eigenVal2 + weight;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From f50e7ab73e87fb7e60d8f193d53d424b15807884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 59/64] fix: resetting a model that is not hierarchical changed
 its transition probabilities

---
 src/models/hmm/xmmHmmSingleClass.cpp | 24 +++++++++---------------
 src/models/hmm/xmmHmmSingleClass.hpp | 10 +---------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index d13ad2d..0c93586 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -398,13 +398,19 @@ double xmm::SingleClassHMM::forward_update(const float* observation,
                                            const float* observation_output) {
     unsigned int numStates = parameters.states.get();
 
+    // Out of a hierarchy, recognition goes on from the last to the first state
+    bool cyclic(!is_hierarchical_ && numStates > 1);
+
     double norm_const(0.);
     previous_alpha_ = alpha;
     for (int j = 0; j < numStates; j++) {
         alpha[j] = 0.;
         if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
             for (int i = 0; i < numStates; i++) {
-                alpha[j] += previous_alpha_[i] * transition[i * numStates + j];
+                alpha[j] += previous_alpha_[i] *
+                            ((cyclic && j == 0 && i == numStates - 1)
+                                 ? CYCLIC_TRANSITION()
+                                 : transition[i * numStates + j]);
             }
         } else {
             alpha[j] += previous_alpha_[j] * transition[j * 2];
@@ -413,7 +419,8 @@ double xmm::SingleClassHMM::forward_update(const float* observation,
                     previous_alpha_[j - 1] * transition[(j - 1) * 2 + 1];
             } else {
                 alpha[0] += previous_alpha_[numStates - 1] *
-                            transition[numStates * 2 - 1];
+                            (cyclic ? CYCLIC_TRANSITION()
+                                    : transition[numStates * 2 - 1]);
             }
         }
         if (shared_parameters->bimodal.get()) {
@@ -1116,19 +1123,6 @@ void xmm::SingleClassHMM::reset() {
         previous_alpha_.clear();
         beta_.clear();
         previous_beta_.clear();
-    } else {
-        addCyclicTransition(0.05);
-    }
-}
-
-void xmm::SingleClassHMM::addCyclicTransition(double proba) {
-    unsigned int numStates = parameters.states.get();
-
-    check_training();
-    if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
-        if (numStates > 1) transition[(numStates - 1) * numStates] = proba;
-    } else {
-        if (numStates > 1) transition[(numStates - 1) * 2 + 1] = proba;
     }
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..6a999be 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -52,6 +52,7 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
   public:
     static const float DEFAULT_EXITPROBABILITY_LAST_STATE() { return 0.1; }
     static const float TRANSITION_REGULARIZATION() { return 1.0e-5; }
+    static const double CYCLIC_TRANSITION() { return 0.05; }
 
     /**
      @brief Constructor
@@ -388,15 +389,6 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     void baumWelch_estimateTransitions(TrainingSet* trainingSet);
 
-    /**
-     @brief Adds a cyclic Transition probability (from last state to first
-     state)
-     @details avoids getting stuck at the end of the model. this method is idle
-     for a hierarchical model.
-     @param proba probability of the transition form last to first state
-     */
-    void addCyclicTransition(double proba);
-
     /**
      @brief Estimates the likeliest state and compute the bounds of the windows
      over the states.
-- 
2.43.0


From 9267acb61afd38cf041db336395282963db36647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 60/64] fix: adding an exit point refused by one class changed
 the other classes

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 3839a0e..1195e82 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -93,6 +93,12 @@ void xmm::HierarchicalHMM::clear() {
 
 void xmm::HierarchicalHMM::addExitPoint(int state, float proba) {
     // prevent_attribute_change();
+    // (no class is changed if the state does not exist in one of them)
+    for (auto &model : models) {
+        if (state < 0 ||
+            state >= static_cast<int>(model.second.parameters.states.get()))
+            throw std::out_of_range("State index out of bounds");
+    }
     for (auto &model : models) {
         model.second.addExitPoint(state, proba);
     }
-- 
2.43.0


From 05ab8df87473ef05c0f68957d50b3f1d46577a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 61/64] fix: transition probabilities of a state without
 transitions were NaN

normalizeTransitions divided rows (and the prior) that sum to zero, e.g. for
an ergodic model trained on phrases of one frame. They get the default
probabilities.
---
 src/models/hmm/xmmHmmSingleClass.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 0c93586..aba05cc 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -333,15 +333,30 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             norm_transition = 0.;
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
-            for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+            // (a state without outgoing probability gets the default ones)
+            for (int j = 0; j < numStates; j++) {
+                if (norm_transition > 0.)
+                    transition[i * numStates + j] /= norm_transition;
+                else
+                    transition[i * numStates + j] = 1. / double(numStates);
+            }
+        }
+        for (int i = 0; i < numStates; i++) {
+            if (norm_prior > 0.)
+                prior[i] /= norm_prior;
+            else
+                prior[i] = 1. / double(numStates);
         }
-        for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
         for (int i = 0; i < numStates; i++) {
             norm_transition = transition[i * 2] + transition[i * 2 + 1];
-            transition[i * 2] /= norm_transition;
-            transition[i * 2 + 1] /= norm_transition;
+            if (norm_transition > 0.) {
+                transition[i * 2] /= norm_transition;
+                transition[i * 2 + 1] /= norm_transition;
+            } else {
+                transition[i * 2] = (i < numStates - 1) ? 0.5 : 1.;
+                transition[i * 2 + 1] = (i < numStates - 1) ? 0.5 : 0.;
+            }
         }
     }
 }
-- 
2.43.0


From 5ed0fff735b58d733d040ff7e02c50fa39eb6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 62/64] fix: component responsibilities of an impossible
 observation were NaN

SingleClassGMM::likelihood divided them by a zero likelihood (e.g. a model
loaded with zero weights), and the regression with them.
---
 src/models/gmm/xmmGmmSingleClass.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index d4db406..4e3d308 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -630,8 +630,12 @@ double xmm::SingleClassGMM::likelihood(
         }
         likelihood += beta[c];
     }
+    // (if every component is impossible, none is favoured)
     for (int c = 0; c < parameters.gaussians.get(); c++) {
-        beta[c] /= likelihood;
+        if (likelihood > 0.)
+            beta[c] /= likelihood;
+        else
+            beta[c] = 1. / double(parameters.gaussians.get());
     }
 
     results.instant_likelihood = likelihood;
-- 
2.43.0


From 01ad41ec608639cda2214964c9626bc3f7651c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 63/64] fix: normalised likelihoods were NaN when every
 likelihood is zero

---
 src/models/gmm/xmmGmm.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 7d21d4a..0967c62 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -78,8 +78,11 @@ void xmm::GMM::updateResults() {
 
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
-        results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        // (likelihoods that are all zero are left as they are)
+        if (normconst_instant > 0.)
+            results.instant_normalized_likelihoods[i] /= normconst_instant;
+        if (normconst_smoothed > 0.)
+            results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
     }
 }
 
-- 
2.43.0


From ff2e5e5a906f48460e09eaf92cd1f347075362a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 64/64] fix: a hierarchical model stayed NaN after an
 observation of likelihood zero

The forward variables (and the normalised likelihoods) were divided by their
zero sum; every later observation then gave NaN.
---
 src/models/hmm/xmmHierarchicalHmm.cpp | 36 +++++++++++++++++----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 1195e82..74c4e31 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -114,7 +114,8 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
         if (sumTrans > 0.0)
             for (int j = 0; j < num_models; j++) transition[i][j] /= sumTrans;
     }
-    for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
+    if (sumPrior > 0.0)
+        for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
 void xmm::HierarchicalHMM::joinTraining() {
@@ -207,11 +208,14 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
     }
 
     // Normalize Alpha variables
-    for (auto &model : models) {
-        unsigned int N = model.second.parameters.states.get();
-        for (unsigned int e = 0; e < 3; e++)
-            for (unsigned int k = 0; k < N; k++)
-                model.second.alpha_h[e][k] /= norm_const;
+    // (an observation impossible in every class leaves them at zero)
+    if (norm_const > 0.0) {
+        for (auto &model : models) {
+            unsigned int N = model.second.parameters.states.get();
+            for (unsigned int e = 0; e < 3; e++)
+                for (unsigned int k = 0; k < N; k++)
+                    model.second.alpha_h[e][k] /= norm_const;
+        }
     }
 
     forward_initialized_ = true;
@@ -334,11 +338,14 @@ void xmm::HierarchicalHMM::forward_update(
     }
 
     // Normalize Alpha variables
-    for (auto &model : models) {
-        unsigned int N = model.second.parameters.states.get();
-        for (unsigned int e = 0; e < 3; e++)
-            for (unsigned int k = 0; k < N; k++)
-                model.second.alpha_h[e][k] /= norm_const;
+    // (an observation impossible in every class leaves them at zero)
+    if (norm_const > 0.0) {
+        for (auto &model : models) {
+            unsigned int N = model.second.parameters.states.get();
+            for (unsigned int e = 0; e < 3; e++)
+                for (unsigned int k = 0; k < N; k++)
+                    model.second.alpha_h[e][k] /= norm_const;
+        }
     }
 }
 
@@ -512,8 +519,11 @@ void xmm::HierarchicalHMM::updateResults() {
 
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
-        results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        // (likelihoods that are all zero are left as they are)
+        if (normconst_instant > 0.)
+            results.instant_normalized_likelihoods[i] /= normconst_instant;
+        if (normconst_smoothed > 0.)
+            results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
     }
 }
 
-- 
2.43.0

