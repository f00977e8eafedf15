From 32acb21ec084b1af1e11f023d0c32daa5210b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 01/60] fix: do not take over the source's listener when
 assigning an attribute

The template operator= is never a copy assignment operator, so the implicit
one was used and copied the callback, bound to the owner of the source.
---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From 26931acc5ceab2addc9b92a5d3d0f70ef1d0faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 02/60] fix: flip the sign of the determinant when rows are
 exchanged

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From feb9686d9061396611edae8494c1092edb8a00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 03/60] fix: release the temporary matrices of the
 pseudo-inverse

---
 src/core/common/xmmMatrix.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 86d5966..50c3b36 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -36,6 +36,7 @@
 #include <cmath>
 #include <exception>
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -240,22 +241,17 @@ class Matrix {
             }
         }
 
-        inverse = new Matrix<T>(ncols, nrows);
-        Matrix<T> *transp, *prod, *dst;
-        transp = this->transpose();
+        std::unique_ptr<Matrix<T>> transp(this->transpose()), prod, dst;
         if (nrows >= ncols) {
-            prod = transp->product(this);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = dst->product(transp);
+            prod.reset(transp->product(this));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = dst->product(transp.get());
         } else {
-            prod = this->product(transp);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = transp->product(dst);
+            prod.reset(this->product(transp.get()));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = transp->product(dst.get());
         }
         *det = 0;
-        delete transp;
-        delete prod;
-        delete dst;
         return inverse;
     }
 
-- 
2.43.0


From 57b61100ddc8f9e8e3f1021e5d4443e95a58cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 04/60] fix: keep the data iterator of a matrix valid when it
 is copied or resized

---
 src/core/common/xmmMatrix.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 50c3b36..a8903dd 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -142,6 +142,35 @@ class Matrix {
         data = data_it;
     }
 
+    /**
+     @brief Copy Constructor
+     @param src source matrix
+     @details shared data stays shared, own data is copied
+     */
+    Matrix(Matrix const &src)
+        : nrows(src.nrows),
+          ncols(src.ncols),
+          _data(src._data),
+          data(src.data),
+          ownData(src.ownData) {
+        if (ownData) data = _data.begin();
+    }
+
+    /**
+     @brief Assignment
+     @param src source matrix
+     */
+    Matrix &operator=(Matrix const &src) {
+        if (this != &src) {
+            nrows = src.nrows;
+            ncols = src.ncols;
+            _data = src._data;
+            ownData = src.ownData;
+            data = ownData ? _data.begin() : src.data;
+        }
+        return *this;
+    }
+
     /**
      @brief Resize the matrix
      @param nrows_ Number of rows
@@ -152,6 +181,7 @@ class Matrix {
         nrows = nrows_;
         ncols = ncols_;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
@@ -164,6 +194,7 @@ class Matrix {
         nrows = nrows_;
         ncols = nrows;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
-- 
2.43.0


From bcfb001617706935a8c5560b899230d8dc42d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 05/60] fix: keep the message returned by JsonException::what
 alive

---
 src/core/common/xmmJson.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..7ae031a 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -154,6 +154,7 @@ class JsonException : public std::exception {
     JsonException(JsonErrorType errorType, std::string nodename = "")
         : errorType_(errorType) {
         nodename_.push_back(nodename);
+        updateMessage();
     }
 
     /**
@@ -164,6 +165,7 @@ class JsonException : public std::exception {
     explicit JsonException(JsonException const& src, std::string nodename)
         : errorType_(src.errorType_), nodename_(src.nodename_) {
         nodename_.push_back(nodename);
+        updateMessage();
     }
 
     /**
@@ -171,7 +173,9 @@ class JsonException : public std::exception {
      @param src Source exception
      */
     JsonException(JsonException const& src)
-        : errorType_(src.errorType_), nodename_(src.nodename_) {}
+        : errorType_(src.errorType_),
+          nodename_(src.nodename_),
+          message_(src.message_) {}
 
     /**
      @brief Assigment
@@ -181,6 +185,7 @@ class JsonException : public std::exception {
         if (this != &src) {
             errorType_ = src.errorType_;
             nodename_ = src.nodename_;
+            message_ = src.message_;
         }
         return *this;
     }
@@ -189,7 +194,13 @@ class JsonException : public std::exception {
      @brief Get exception message
      @return exception message
      */
-    virtual const char* what() const throw() {
+    virtual const char* what() const throw() { return message_.c_str(); }
+
+  private:
+    /**
+     @brief Builds the exception message
+     */
+    void updateMessage() {
         std::string message;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
@@ -211,10 +222,9 @@ class JsonException : public std::exception {
         message += " (root";
         for (auto& node : nodename_) message += " > " + node;
         message += ")";
-        return message.c_str();
+        message_ = message;
     }
 
-  private:
     /**
      @brief Type of Json Parsing Error
      */
@@ -224,6 +234,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Exception message
+     */
+    std::string message_;
 };
 
 /**
-- 
2.43.0


From 3a6a01b9db0fd559105b158501c1b9f0c1d99602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 06/60] fix: free both modalities of a phrase when its
 dimensions change

---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..f599ce7 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -564,14 +564,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 0da4f9e6fd515a1b938e2fd8633f46209f1d3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 07/60] fix: give each copied phrase its own initialised data
 array

---
 src/core/trainingset/xmmPhrase.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index f599ce7..95534af 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -162,12 +164,12 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
                 } catch (std::exception& e) {
                 }
             }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
         }
+        try {
+            delete[] data_;
+        } catch (std::exception& e) {
+        }
+        data_ = NULL;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +182,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 9071d9b59d2eaad2eefe91eaab506b3c52c36fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 08/60] fix: rescale the output modality of a bimodal phrase in
 place

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 95534af..d0fe59d 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -525,8 +525,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From 39f12425e8e122043499c186c32220c161347746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 09/60] fix: keep the input dimension below the dimension when
 the dimension shrinks

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 src/core/model/xmmModelSharedParameters.cpp        | 2 ++
 src/core/trainingset/xmmPhrase.cpp                 | 5 ++++-
 src/core/trainingset/xmmTrainingSet.cpp            | 2 ++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..1ac426a 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -137,6 +137,8 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..13d1cc1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,6 +156,8 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         }
     } else if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index d0fe59d..b0f77d1 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -579,8 +579,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..a925fea 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -152,6 +152,8 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() >= dimension.get())
+            dimension_input.set(dimension.get() - 1);
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 0b02a8bd8bba9de5a3eeb4a914ab8f6dbe821c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 10/60] fix: ignore the column names of a JSON file beyond the
 dimension

---
 src/core/trainingset/xmmPhrase.cpp      | 3 ++-
 src/core/trainingset/xmmTrainingSet.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index b0f77d1..b0d385f 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -121,7 +121,8 @@ xmm::Phrase::Phrase(Json::Value const& root)
     if (bimodal_) data_[1] = NULL;
 
     column_names.resize(dimension.get(), "");
-    for (int i = 0; i < root["column_names"].size(); i++) {
+    for (int i = 0;
+         i < root["column_names"].size() && i < column_names.size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
     }
 
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index a925fea..c277006 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -87,7 +87,8 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
-    for (int i = 0; i < root["column_names"].size(); i++) {
+    for (int i = 0; i < root["column_names"].size() && i < tmpColNames.size();
+         i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
     }
     column_names.set(tmpColNames);
-- 
2.43.0


From 34f8a3ebfa33a855f39cc712067e3a8c9fa0d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 11/60] fix: release the memory of a phrase that cannot be read
 from JSON

---
 src/core/trainingset/xmmPhrase.cpp | 31 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index b0d385f..d13f360 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -116,10 +116,6 @@ xmm::Phrase::Phrase(Json::Value const& root)
         dimension_input.setLimits(0, 0);
     }
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
-
     column_names.resize(dimension.get(), "");
     for (int i = 0;
          i < root["column_names"].size() && i < column_names.size(); i++) {
@@ -134,21 +130,22 @@ xmm::Phrase::Phrase(Json::Value const& root)
     output_length_ = length_;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
+    // the destructor is not called if the data cannot be read
+    std::vector<float> data[2];
     if (bimodal_) {
-        data_[0] =
-            reallocate<float>(data_[0], max_length_ * dimension_input.get(),
-                              length_ * dimension_input.get());
-        data_[1] = reallocate<float>(
-            data_[1], max_length_ * (dimension.get() - dimension_input.get()),
-            length_ * (dimension.get() - dimension_input.get()));
-        json2array(root["data_input"], data_[0],
-                   length_ * dimension_input.get());
-        json2array(root["data_output"], data_[1],
-                   length_ * (dimension.get() - dimension_input.get()));
+        data[0].resize(length_ * dimension_input.get());
+        data[1].resize(length_ * (dimension.get() - dimension_input.get()));
+        json2array(root["data_input"], data[0].data(), data[0].size());
+        json2array(root["data_output"], data[1].data(), data[1].size());
     } else {
-        data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
-                                     length_ * dimension.get());
-        json2array(root["data"], data_[0], length_ * dimension.get());
+        data[0].resize(length_ * dimension.get());
+        json2array(root["data"], data[0].data(), data[0].size());
+    }
+
+    data_ = new float*[bimodal_ ? 2 : 1];
+    for (int m = 0; m < (bimodal_ ? 2 : 1); m++) {
+        data_[m] = new float[data[m].size()];
+        std::copy(data[m].begin(), data[m].end(), data_[m]);
     }
 }
 
-- 
2.43.0


From 70b680af3c6af0e8595405b124e9fbe4de422801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 12/60] fix: refuse a JSON phrase whose length is negative or
 overflows

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index d13f360..23ea176 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -125,6 +125,10 @@ xmm::Phrase::Phrase(Json::Value const& root)
     label.set(root["label"].asString());
 
     length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    if (root.get("length", 0).asInt() < 0 ||
+        length_ > std::numeric_limits<int>::max() / dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "length");
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = length_;
-- 
2.43.0


From c25625aefb6665cab42a3c5cc59bb361449e31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:46 +0000
Subject: [PATCH 13/60] fix: copy the phrases of a training set instead of
 sharing them with the source

---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index c277006..a5d07bc 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From 0d7866eb10ca49edf397aa0dc0a3ee1399946422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 14/60] fix: stop listening to the phrases that leave a
 training set

---
 src/core/trainingset/xmmTrainingSet.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index a5d07bc..91a0101 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -128,7 +128,7 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() { clear(); }
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -222,6 +222,10 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    std::shared_ptr<Phrase> previous = getPhrase(phraseIndex);
+    if (previous) {
+        previous->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -235,6 +239,10 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
+    std::shared_ptr<Phrase> previous = getPhrase(phraseIndex);
+    if (previous) {
+        previous->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
@@ -244,6 +252,10 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    std::shared_ptr<Phrase> previous = getPhrase(phraseIndex);
+    if (previous) {
+        previous->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -251,6 +263,10 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
+    std::shared_ptr<Phrase> phrase = getPhrase(phraseIndex);
+    if (phrase) {
+        phrase->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_.erase(phraseIndex);
     update();
 }
@@ -271,6 +287,10 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 }
 
 void xmm::TrainingSet::clear() {
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
     sub_training_sets_.clear();
     phrases_.clear();
     labels_.clear();
@@ -294,6 +314,9 @@ void xmm::TrainingSet::update() {
     labels_.clear();
     for (auto &phrase : phrases_) {
         labels_.insert(phrase.second->label.get());
+        // a phrase can be referenced several times
+        phrase.second->events.addListener(this,
+                                          &xmm::TrainingSet::onPhraseEvent);
     }
     sub_training_sets_.clear();
     for (std::string label : labels_) {
-- 
2.43.0


From 62f259e2e2e8ce94510505bcee35bf6f885a8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 15/60] fix: copy the label of the class to remove

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 91a0101..66db583 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -272,11 +272,13 @@ void xmm::TrainingSet::removePhrase(int phraseIndex) {
 }
 
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+    // the argument can be one of the labels that are updated
+    std::string const target(label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
         for (auto &phrase : phrases_) {
-            if (phrase.second->label.get() == label) {
+            if (phrase.second->label.get() == target) {
                 removePhrase(phrase.first);
                 contLoop = true;
                 break;
-- 
2.43.0


From 6549d02497bc54b587e19d09f95ab8f7d11f0223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 16/60] fix: resize the column names of the classes with their
 training set

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 66db583..2cc3c0c 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -147,8 +147,10 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         }
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
-             it != sub_training_sets_.end(); ++it)
+             it != sub_training_sets_.end(); ++it) {
             it->second.dimension.set(dimension.get(), true);
+            it->second.column_names.resize(dimension.get());
+        }
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
-- 
2.43.0


From 1c575ec29c823a059563b3cf970f3959c9d566de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 17/60] fix: read a diagonal covariance from JSON

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 1ac426a..cffb6d2 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -95,15 +95,15 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 
     json2vector(root["mean"], mean, dimension.get());
     json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(covariance.size()));
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                static_cast<unsigned int>(inverse_covariance_.size()));
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
 
-- 
2.43.0


From 3bb735363a4d116b4588883e130b8cdc5d254d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 18/60] fix: read the conditional covariance of a gaussian from
 JSON

---
 src/core/distributions/xmmGaussianDistribution.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index cffb6d2..edc6074 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -106,6 +106,14 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
                 static_cast<unsigned int>(inverse_covariance_input_.size()));
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (bimodal_ && root["output_covariance"].size() > 0) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(covariance_mode.get() == CovarianceMode::Full
+                                     ? dimension_output * dimension_output
+                                     : dimension_output);
+        json2vector(root["output_covariance"], output_covariance,
+                    static_cast<unsigned int>(output_covariance.size()));
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From e39cda3496d94150add97ab60faafbd92ed5616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 19/60] fix: keep the covariance when the requested mode is
 already set

---
 .../distributions/xmmGaussianDistribution.cpp | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index edc6074..d5a50b3 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -153,21 +153,25 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     }
     if (attr_pointer == &covariance_mode) {
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
-            std::vector<double> new_covariance(dimension.get());
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d] = covariance[d * dimension.get() + d];
+            if (covariance.size() != dimension.get()) {
+                std::vector<double> new_covariance(dimension.get());
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d] = covariance[d * dimension.get() + d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
         } else if (covariance_mode.get() == CovarianceMode::Full) {
-            std::vector<double> new_covariance(
-                dimension.get() * dimension.get(), 0.0);
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d * dimension.get() + d] = covariance[d];
+            if (covariance.size() != dimension.get() * dimension.get()) {
+                std::vector<double> new_covariance(
+                    dimension.get() * dimension.get(), 0.0);
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d * dimension.get() + d] = covariance[d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get() * dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get() *
-- 
2.43.0


From 69b78b66959d8be120ddd37450cdde14ab7adf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 20/60] fix: accept a horizontal ellipse

---
 src/core/distributions/xmmGaussianDistribution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index d5a50b3..60b096d 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -568,9 +568,10 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    double ratio = (eigenVal1 - eigenVal2) / (tantheta * tantheta + 1.);
+    b = ratio * tantheta;
+    c = eigenVal1 - ratio;
+    a = eigenVal2 + ratio;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From 775beac350c2549e649b164870a14f0e6207686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 21/60] fix: keep the limits of the input dimension valid when
 the modality changes

---
 src/core/model/xmmModelSharedParameters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 13d1cc1..4bc3ab7 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -146,12 +146,12 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-- 
2.43.0


From 1456d7d9f77fba70968ac845315382ab1301cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 22/60] fix: read the training parameters from JSON in double
 precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 4bc3ab7..8f7d1e7 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..c30e442 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From 90602e58c449309c5e707707cd347cb01f7d0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 23/60] fix: copy the hierarchical flag when assigning HMM
 parameters

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index c30e442..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 47d6b6dab98ce03662fabcbfc662c60c3601e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 24/60] fix: read the KMeans distance threshold from JSON in
 double precision

---
 src/models/kmeans/xmmKMeansParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 9620d03..5e8540d 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -64,7 +64,7 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     clusters.set(root["clusters"].asInt());
     max_iterations.set(root["max_iterations"].asInt());
     relative_distance_threshold.set(
-        root["relative_distance_threshold"].asFloat());
+        root["relative_distance_threshold"].asDouble());
 }
 
 xmm::ClassParameters<xmm::KMeans>& xmm::ClassParameters<xmm::KMeans>::operator=(
-- 
2.43.0


From fb6065ed2a3082fade34187df07fd1f99e079308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 25/60] fix: keep the configuration read from JSON

---
 src/core/model/xmmModelConfiguration.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 6614fc8..43d8430 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -206,6 +206,7 @@ class Configuration : public ClassParameters<ModelType> {
         try {
             Configuration<ModelType> tmp(root);
             *this = tmp;
+            *this = tmp;
         } catch (JsonException& e) {
             throw e;
         }
-- 
2.43.0


From fcb0f7a0858878a29a24be02a2bb90a2fa8e3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 26/60] fix: attach the classes of a copied model to the copy's
 shared parameters

---
 src/core/model/xmmModel.hpp            |  2 ++
 src/core/model/xmmModelSingleClass.hpp |  8 ++++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 10 ++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..f01f34c 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..21352df 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -256,6 +256,14 @@ class SingleClassProbabilisticModel : public Writable {
 
     ///@}
 
+    /**
+     @brief Attaches the class to the shared parameters of a (new) owner
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /** @name Json I/O */
     ///@{
 
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..d6fccee 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -113,6 +113,16 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
 
     ///@}
 
+    /**
+     @brief Attaches the class and its states to the shared parameters of a
+     (new) owner
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        SingleClassProbabilisticModel::setSharedParameters(p);
+        for (auto& state : states) state.setSharedParameters(p);
+    }
+
     /** @name Json I/O */
     ///@{
 
-- 
2.43.0


From 1876dbd8ae7184e8f4af857e406fe13608651d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 27/60] fix: give a copied class the likelihood window of its
 source

---
 src/core/model/xmmModelSingleClass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..5f76b87 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -62,6 +62,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
         throw std::runtime_error("Cannot copy: target model is still training");
     if (src.is_training_)
         throw std::runtime_error("Cannot copy: source model is still training");
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
@@ -78,6 +79,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     }
     label = root["label"].asString();
     training_status.label = label;
+    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
 }
 
 xmm::SingleClassProbabilisticModel& xmm::SingleClassProbabilisticModel::
@@ -92,6 +94,8 @@ operator=(SingleClassProbabilisticModel const& src) {
         label = src.label;
         training_status = TrainingEvent(this, label),
         shared_parameters = src.shared_parameters;
+        likelihood_buffer_.resize(shared_parameters->likelihood_window.get());
+        likelihood_buffer_.clear();
         is_training_ = false;
         cancel_training_ = false;
     }
-- 
2.43.0


From 1a047a98c40616166468c3f05afa4530c304c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 28/60] fix: initialise the forward algorithm's flag of HMM
 classes

---
 src/models/hmm/xmmHmmSingleClass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..de3168a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      forward_initialized_(false),
+      is_hierarchical_(true) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -41,6 +43,7 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       states(src.states),
       prior(src.prior),
       transition(src.transition),
+      forward_initialized_(false),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
     alpha.resize(parameters.states.get());
@@ -51,7 +54,9 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      forward_initialized_(false),
+      is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
     allocate();
@@ -79,6 +84,7 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     if (this != &src) {
         SingleClassProbabilisticModel::operator=(src);
 
+        forward_initialized_ = false;
         is_hierarchical_ = src.is_hierarchical_;
         parameters = src.parameters;
         transition = src.transition;
-- 
2.43.0


From 0a2f8d66af71599f71375d8233d9c067127e7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 29/60] fix: allocate the forward variable when filtering
 starts

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index de3168a..c035357 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -346,6 +346,7 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
     unsigned int numStates = parameters.states.get();
 
     double norm_const(0.);
+    alpha.assign(numStates, 0.0);
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
         for (int i = 0; i < numStates; i++) {
             if (shared_parameters->bimodal.get()) {
@@ -361,7 +362,6 @@ double xmm::SingleClassHMM::forward_init(const float* observation,
             norm_const += alpha[i];
         }
     } else {
-        alpha.assign(numStates, 0.0);
         if (shared_parameters->bimodal.get()) {
             if (observation_output)
                 alpha[0] =
-- 
2.43.0


From 6ecb8d63f9370c5b9b0497ca20d2959eb5a4692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 30/60] fix: keep the window of a single-state HMM from being
 empty

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index c035357..e7184eb 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1192,6 +1192,8 @@ void xmm::SingleClassHMM::updateAlphaWindow() {
     window_maxindex_ = (window_maxindex_ <= static_cast<int>(numStates))
                            ? window_maxindex_
                            : static_cast<int>(numStates);
+    if (window_maxindex_ <= window_minindex_)
+        window_maxindex_ = window_minindex_ + 1;
     window_normalization_constant_ = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         window_normalization_constant_ +=
-- 
2.43.0


From 6e09c974bce7743c3471c5f13e48883fc0ade3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 31/60] fix: report the output covariance of the likeliest
 state

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index e7184eb..b010cef 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1221,6 +1221,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From cc25e4983c95b25e83adc67388750ef0f4953476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 32/60] fix: weight the progress of hierarchical HMMs by the
 probabilities it is normalised with

---
 src/models/hmm/xmmHmmSingleClass.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index b010cef..0753180 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1302,11 +1302,11 @@ void xmm::SingleClassHMM::updateResults() {
     results.log_likelihood /= double(bufSize);
 
     results.progress = 0.0;
+    if (window_normalization_constant_ <= 0.0) return;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         if (is_hierarchical_)
-            results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
+            results.progress += (alpha_h[0][i] + alpha_h[1][i]) * i /
+                                window_normalization_constant_;
         else
             results.progress += alpha[i] * i / window_normalization_constant_;
     }
-- 
2.43.0


From e54a6df62dd2c439f4867b726c87f5e7b6fde39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 33/60] fix: push each likelihood once in non-hierarchical HMMs

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..075e1d3 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -402,10 +402,13 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
+    // Compute time progression (already done by the classes when they filter
+    // independently)
+    if (configuration.hierarchical.get()) {
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     }
     updateResults();
 
-- 
2.43.0


From 2bec2fcc5467e0bb2661e267a94d4c175b9148da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 34/60] fix: start the forward algorithm of ergodic
 hierarchical HMMs from the priors

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 075e1d3..e1efd0b 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -160,14 +160,15 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         // primitive
         if (model.second.parameters.transition_mode.get() ==
             HMM::TransitionMode::Ergodic) {
+            model.second.results.instant_likelihood = 0.0;
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
-- 
2.43.0


From 54a6200d7cf691485989db11322612ef142f248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 35/60] fix: use uniform transitions from the states an ergodic
 HMM never leaves in training

---
 src/models/hmm/xmmHmmSingleClass.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 0753180..b76f11a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -326,10 +326,19 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             norm_transition = 0.;
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
-            for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+            for (int j = 0; j < numStates; j++) {
+                if (norm_transition > 0)
+                    transition[i * numStates + j] /= norm_transition;
+                else
+                    transition[i * numStates + j] = 1 / (float)numStates;
+            }
+        }
+        for (int i = 0; i < numStates; i++) {
+            if (norm_prior > 0)
+                prior[i] /= norm_prior;
+            else
+                prior[i] = 1 / (float)numStates;
         }
-        for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
         for (int i = 0; i < numStates; i++) {
             norm_transition = transition[i * 2] + transition[i * 2 + 1];
-- 
2.43.0


From 996a62141d2545d52736c0f7ef40eb3b4ba50776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 36/60] fix: skip empty phrases when estimating the prior of an
 HMM

---
 src/models/hmm/xmmHmmSingleClass.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index b76f11a..69351d1 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -995,9 +995,11 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
-            prior[i] += gamma_sequence_[phraseIndex][i];
-            sumprior += gamma_sequence_[phraseIndex][i];
+        if (it->second->size() > 0) {
+            for (int i = 0; i < numStates; i++) {
+                prior[i] += gamma_sequence_[phraseIndex][i];
+                sumprior += gamma_sequence_[phraseIndex][i];
+            }
         }
         phraseIndex++;
     }
-- 
2.43.0


From 76edfdcf79e4f6246ad9eb954076ee4ac70c6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 37/60] fix: reset the exit probabilities when the number of
 states changes

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 69351d1..933aa15 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1377,7 +1377,8 @@ void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
     if (exitProbabilities == NULL) {
-        exit_probabilities_.resize(numStates, 0.0);
+        if (exit_probabilities_.size() != numStates)
+            exit_probabilities_.assign(numStates, 0.0);
         exit_probabilities_[numStates - 1] =
             DEFAULT_EXITPROBABILITY_LAST_STATE();
     } else {
-- 
2.43.0


From 24b69c128c3ea0b343d8b8afd75558018c3ac351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 38/60] fix: allow removing and adding classes in
 non-hierarchical HMMs

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 src/models/hmm/xmmHmmSingleClass.cpp  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index e1efd0b..683496a 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -134,7 +134,8 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        model.second.updateExitProbabilities();
+        if (model.second.is_hierarchical_)
+            model.second.updateExitProbabilities();
     }
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 933aa15..37ae657 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1115,6 +1115,8 @@ void xmm::SingleClassHMM::reset() {
     if (is_hierarchical_) {
         for (int i = 0; i < 3; i++)
             alpha_h[i].resize(parameters.states.get(), 0.0);
+        if (exit_probabilities_.size() != parameters.states.get())
+            updateExitProbabilities(NULL);
         alpha.clear();
         previous_alpha_.clear();
         beta_.clear();
-- 
2.43.0


From a850f41e3b7fbc67984cc997ed08b05a5b696fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 39/60] fix: refuse a JSON model whose number of components or
 states does not match

---
 src/models/gmm/xmmGmmSingleClass.cpp | 3 +++
 src/models/hmm/xmmHmmSingleClass.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..e2818c1 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -55,6 +55,9 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     json2vector(root["mixture_coeffs"], mixture_coeffs,
                 parameters.gaussians.get());
 
+    if (root["components"].size() != components.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
     int c(0);
     for (auto p : root["components"]) {
         components[c++].fromJson(p);
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 37ae657..e6acb20 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -74,6 +74,9 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                     parameters.states.get());
     }
 
+    if (root["states"].size() != states.size())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
     int s(0);
     for (auto p : root["states"]) {
         states[s++].fromJson(p);
-- 
2.43.0


From f2c3e563db09741d14953785b9dd446d6b08222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 40/60] fix: complete a sequential training like a parallel one

---
 src/core/model/xmmModel.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index f01f34c..8881870 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -294,12 +294,9 @@ class Model : public Writable {
                 it->second.train(trainingSet->getPhrasesOfClass(it->first));
             }
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
@@ -354,12 +351,9 @@ class Model : public Writable {
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
         }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
+        if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
     }
 
     /**
-- 
2.43.0


From f27ce3ba41847d174caed500f1009afa610f7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 41/60] fix: do not start training before the training set is
 accepted

---
 src/core/model/xmmModel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8881870..03b1600 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -250,8 +250,6 @@ class Model : public Writable {
         cancelTraining();
         clear();
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -260,6 +258,8 @@ class Model : public Writable {
         }
         shared_parameters->column_names.set(trainingSet->column_names.get());
 
+        is_training_ = true;
+
         // Update models
         bool contLoop(true);
         while (contLoop) {
@@ -328,8 +328,6 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
-
         // Fetch training set parameters
         shared_parameters->dimension.set(trainingSet->dimension.get());
         if (shared_parameters->bimodal.get()) {
@@ -338,6 +336,8 @@ class Model : public Writable {
         }
         shared_parameters->column_names.set(trainingSet->column_names.get());
 
+        is_training_ = true;
+
         addModelForClass(label);
 
         // Start class training
-- 
2.43.0


From 6c2a9c3ac27bf44124a60a40d616d29d6493d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 42/60] fix: allocate the results of a model read from JSON

---
 src/models/gmm/xmmGmm.cpp             | 4 +++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..c566f32 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 683496a..e20b22c 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    reset();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
-- 
2.43.0


From d7f95edfd76d644ef8fc48d7dd72e1a8c31c5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 43/60] fix: keep the listeners of a hierarchical HMM that is
 read from JSON

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index e20b22c..863fb79 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -525,8 +525,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
-- 
2.43.0


From 59e00adb3bded9de198f9cffbc0a23f7914d7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 44/60] fix: drop the assignment duplicated by fb6065e
 (Configuration::fromJson already kept what it read)

---
 src/core/model/xmmModelConfiguration.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 43d8430..6614fc8 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -206,7 +206,6 @@ class Configuration : public ClassParameters<ModelType> {
         try {
             Configuration<ModelType> tmp(root);
             *this = tmp;
-            *this = tmp;
         } catch (JsonException& e) {
             throw e;
         }
-- 
2.43.0


From f8f02243252ff7743ed219bec857972637a24ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 45/60] fix: allocate the results of a GMM that reads another
 one from JSON

---
 src/core/model/xmmModel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 03b1600..7fc1264 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -448,6 +448,7 @@ class Model : public Writable {
             Model<SingleClassModel, ModelType> tmp(root);
             *this = tmp;
             training_events = _tmp_training_events;
+            reset();
         } catch (JsonException& e) {
             throw e;
         }
-- 
2.43.0


From 614b9eec193fa577b9a11126463f3e8f67579fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 46/60] fix: copy the shared parameters of a KMeans

---
 src/models/kmeans/xmmKMeans.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..497059d 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,12 +48,16 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         initialization_mode = src.initialization_mode;
         configuration = src.configuration;
         centers = src.centers;
-- 
2.43.0


From 0b554c56a9154cfaf630323eb14222fdcc3c1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 47/60] fix: allocate the distances of a KMeans when it filters

---
 src/models/kmeans/xmmKMeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 497059d..728fd07 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -208,6 +208,7 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    results.distances.resize(configuration.clusters.get(), 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From 6bbeb7da9fa37566f56608a0b0a722fb8f15cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 48/60] fix: mix classes of different covariance modes in a
 regression

---
 src/models/gmm/xmmGmm.cpp             | 16 +++++++++++++---
 src/models/hmm/xmmHierarchicalHmm.cpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index c566f32..1fb274b 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -144,8 +144,17 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
+                    bool full = configuration.covariance_mode.get() ==
+                                GaussianDistribution::CovarianceMode::Full;
+                    if (model.second.parameters.covariance_mode.get() !=
+                        GaussianDistribution::CovarianceMode::Full) {
+                        // the class only has variances
+                        results.output_covariance[full
+                                                      ? d * dimension_output + d
+                                                      : d] +=
+                            results.smoothed_normalized_likelihoods[i] *
+                            model.second.results.output_covariance[d];
+                    } else if (full) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -156,7 +165,8 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results
+                                .output_covariance[d * dimension_output + d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 863fb79..790d1fe 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -446,8 +446,17 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
 
-                    if ((configuration.covariance_mode.get() ==
-                         GaussianDistribution::CovarianceMode::Full)) {
+                    bool full = configuration.covariance_mode.get() ==
+                                GaussianDistribution::CovarianceMode::Full;
+                    if (model.second.parameters.covariance_mode.get() !=
+                        GaussianDistribution::CovarianceMode::Full) {
+                        // the class only has variances
+                        results.output_covariance[full
+                                                      ? d * dimension_output + d
+                                                      : d] +=
+                            results.smoothed_normalized_likelihoods[i] *
+                            model.second.results.output_covariance[d];
+                    } else if (full) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -458,7 +467,8 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results
+                                .output_covariance[d * dimension_output + d];
                     }
                 }
                 i++;
-- 
2.43.0


From 6d1ef47fff4ffd62f4f0c0599c70f5c39a46b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 49/60] fix: make the training flags of a class atomic

---
 src/core/model/xmmModel.hpp            | 2 +-
 src/core/model/xmmModelSingleClass.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 7fc1264..a97c51d 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -618,7 +618,7 @@ class Model : public Writable {
     /**
      @brief Number of models that are still training
      */
-    unsigned int models_still_training_;
+    std::atomic<unsigned int> models_still_training_;
 
     /**
      @brief Mutex that prevents concurrent calls to onEvent()
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index 21352df..99ab0be 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -39,6 +39,7 @@
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
 #include <memory>
+#include <atomic>
 #include <mutex>
 
 namespace xmm {
@@ -368,12 +369,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
-- 
2.43.0


From 353288b64c6d751fae61ec7475f5e72ba98e40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 50/60] fix: wait for the thread of a cancelled class

---
 src/core/model/xmmModel.hpp            | 18 ++++++++++++++----
 src/core/model/xmmModelSingleClass.cpp |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index a97c51d..8e84db9 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -214,7 +214,7 @@ class Model : public Writable {
         if (it == models.end())
             throw std::out_of_range("Class " + label + " does not exist");
         models.erase(it);
-        reset();
+        if (!is_training_) reset();
     }
 
     /**
@@ -382,11 +382,21 @@ class Model : public Writable {
             models[label].cancelTraining();
             while (models[label].isTraining()) {
             }
-            if (models_still_training_ == 0) {
-                joinTraining();
+            bool last;
+            {
+                // the last event decides under the same lock if it has to join
+                std::lock_guard<std::mutex> lock(event_mutex_);
+                cancel_required_ = false;
+                last = (models_still_training_ == 0);
+                // the thread still uses the class after its last event
+                auto thread = training_threads_.find(label);
+                if (!last && thread != training_threads_.end()) {
+                    thread->second.join();
+                    training_threads_.erase(thread);
+                }
             }
+            if (last) joinTraining();
         }
-        cancel_required_ = false;
     }
 
     ///@}
diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 5f76b87..ba4a966 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -162,10 +162,10 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             trainingError = true;
 
         if (trainingError) {
-            is_training_ = false;
             training_mutex_.unlock();
             training_status.status = TrainingEvent::Status::Error;
             training_events.notifyListeners(training_status);
+            is_training_ = false;
             return;
         }
 
-- 
2.43.0


From b31fbfc436beea9d0db48f092efa911359ae1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 51/60] fix: launch all training threads before any of them can
 complete the training

---
 src/core/model/xmmModel.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8e84db9..c6a9bef 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -278,11 +278,14 @@ class Model : public Writable {
             addModelForClass(*it);
         }
 
-        // Start class training
+        // Start class training: no event is handled before all threads exist
+        std::unique_lock<std::mutex> launching(event_mutex_, std::defer_lock);
+        if (configuration.multithreading != MultithreadingMode::Sequential)
+            launching.lock();
+        models_still_training_ = size();
         for (auto it = this->models.begin(); it != this->models.end(); ++it) {
             it->second.is_training_ = true;
             it->second.cancel_training_ = false;
-            models_still_training_++;
             if ((configuration.multithreading ==
                  MultithreadingMode::Parallel) ||
                 (configuration.multithreading ==
@@ -294,6 +297,7 @@ class Model : public Writable {
                 it->second.train(trainingSet->getPhrasesOfClass(it->first));
             }
         }
+        if (launching.owns_lock()) launching.unlock();
         if (configuration.multithreading != MultithreadingMode::Background) {
             joinTraining();
         }
@@ -336,6 +340,12 @@ class Model : public Writable {
         }
         shared_parameters->column_names.set(trainingSet->column_names.get());
 
+        // From here on, the other classes do not complete the training
+        event_mutex_.lock();
+        bool idle = (models_still_training_++ == 0);
+        event_mutex_.unlock();
+        if (idle) cancelTraining();
+
         is_training_ = true;
 
         addModelForClass(label);
@@ -343,10 +353,10 @@ class Model : public Writable {
         // Start class training
         models[label].is_training_ = true;
         models[label].cancel_training_ = false;
-        models_still_training_++;
         if (configuration.multithreading == MultithreadingMode::Sequential) {
             models[label].train(trainingSet->getPhrasesOfClass(label));
         } else {
+            std::lock_guard<std::mutex> launching(event_mutex_);
             training_threads_[label] =
                 std::thread(&SingleClassModel::train, &(this->models[label]),
                             trainingSet->getPhrasesOfClass(label));
-- 
2.43.0


From 78bafd4bdce57b6d024d0116ffc05d9722bbc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 52/60] fix: complete a background training before reporting
 its end, and before destruction

---
 src/core/model/xmmModel.hpp           | 34 +++++++++++++++++++++------
 src/models/gmm/xmmGmm.hpp             |  5 ++++
 src/models/hmm/xmmHierarchicalHmm.cpp |  8 ++-----
 src/models/hmm/xmmHierarchicalHmm.hpp | 12 ++++------
 4 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index c6a9bef..8bb64fb 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -379,6 +379,7 @@ class Model : public Writable {
             }
             joinTraining();
         }
+        waitForJoiningThread();
         cancel_required_ = false;
     }
 
@@ -504,7 +505,11 @@ class Model : public Writable {
     virtual void joinTraining() {
         if (!is_training_) return;
         bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
+        if (is_joining_.compare_exchange_strong(expectedState, true)) {
+            if (!is_training_) {
+                is_joining_ = false;
+                return;
+            }
             while (!training_threads_.empty()) {
                 training_threads_.begin()->second.join();
                 training_threads_.erase(training_threads_.begin());
@@ -524,9 +529,9 @@ class Model : public Writable {
                     }
                 }
             }
-            is_joining_ = false;
-            is_training_ = false;
             reset();
+            is_training_ = false;
+            is_joining_ = false;
             TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
             training_events.notifyListeners(event);
         } else {
@@ -535,6 +540,17 @@ class Model : public Writable {
         }
     }
 
+    /**
+     @brief Waits for the end of the thread that joins a background training
+     */
+    void waitForJoiningThread() {
+        if (!joining_thread_.joinable()) return;
+        if (joining_thread_.get_id() == std::this_thread::get_id())
+            joining_thread_.detach();  // called by a listener
+        else
+            joining_thread_.join();
+    }
+
     /**
      @brief Monitors the training of each Model of the group.
      */
@@ -553,10 +569,9 @@ class Model : public Writable {
                 !cancel_required_ &&  // avoid to call "joinTraining" if cancel
                                       // required by the main thread
                 models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
+                waitForJoiningThread();
+                joining_thread_ = std::thread(
+                    &Model<SingleClassModel, ModelType>::joinTraining, this);
             }
         }
         event_mutex_.unlock();
@@ -617,6 +632,11 @@ class Model : public Writable {
      */
     std::map<std::string, std::thread> training_threads_;
 
+    /**
+     @brief Thread that joins the training threads of a background training
+     */
+    std::thread joining_thread_;
+
     /**
      @brief locks the Model while the models are training
      Used in cancel method
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..7dcdd0d 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -64,6 +64,11 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     explicit GMM(Json::Value const& root);
 
+    /**
+     @brief Destructor: stops the training while the object is complete
+     */
+    virtual ~GMM() { cancelTraining(); }
+
     /**
      @brief Assignment
      @param src Source Model
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 790d1fe..f77004e 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -103,11 +103,6 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::updateTransitionParameters() {
     if (this->size() == prior.size())  // number of primitives has not changed
         return;
@@ -362,7 +357,8 @@ void xmm::HierarchicalHMM::removeClass(std::string const &label) {
 }
 
 void xmm::HierarchicalHMM::reset() {
-    Model<SingleClassHMM, HMM>::reset();
+    if (!is_joining_) Model<SingleClassHMM, HMM>::reset();
+    updateTransitionParameters();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..d7749c5 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -69,6 +69,11 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     explicit HierarchicalHMM(Json::Value const& root);
 
+    /**
+     @brief Destructor: stops the training while the object is complete
+     */
+    virtual ~HierarchicalHMM() { cancelTraining(); }
+
     /**
      @brief Assignment
      @param src Source Model
@@ -212,13 +217,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     std::vector<std::vector<double>> transition;
 
   protected:
-    /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
-     @details: updates transition parameters after joining
-     */
-    virtual void joinTraining();
-
     /**
      @brief update high-level parameters when a new primitive is learned
      @details  updated parameters: prior probabilities + transition matrix
-- 
2.43.0


From 669ef0e3cfe115eaf5b6104a8a45bdc561b0555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 53/60] fix: leave the parameters of the classes in training
 alone when another class is trained

---
 src/core/model/xmmModel.hpp           | 28 ++++++++++++++++-----------
 src/models/hmm/xmmHierarchicalHmm.cpp |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 8bb64fb..082bb92 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -332,19 +332,25 @@ class Model : public Writable {
                     "models");
         }
 
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        // From here on, the other classes do not complete the training
+        // From here on, other classes in training do not complete the training
         event_mutex_.lock();
-        bool idle = (models_still_training_++ == 0);
+        bool idle = (models_still_training_ == 0);
+        if (!idle) models_still_training_++;
         event_mutex_.unlock();
-        if (idle) cancelTraining();
+
+        if (idle) {
+            cancelTraining();
+
+            // Fetch training set parameters
+            shared_parameters->dimension.set(trainingSet->dimension.get());
+            if (shared_parameters->bimodal.get()) {
+                shared_parameters->dimension_input.set(
+                    trainingSet->dimension_input.get());
+            }
+            shared_parameters->column_names.set(
+                trainingSet->column_names.get());
+            models_still_training_++;
+        }
 
         is_training_ = true;
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f77004e..f5b9ba1 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -130,7 +130,7 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        if (model.second.is_hierarchical_)
+        if (model.second.is_hierarchical_ && !model.second.isTraining())
             model.second.updateExitProbabilities();
     }
 }
-- 
2.43.0


From 24b3c66b6b119d144041f97814994e8f394fd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 54/60] fix: do not remove a class while the training is being
 completed

---
 src/core/model/xmmModel.hpp           | 17 +++++++++++++----
 src/models/hmm/xmmHierarchicalHmm.cpp |  1 -
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 082bb92..e78cad4 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -210,10 +210,19 @@ class Model : public Writable {
         while (is_joining_) {
         }
         cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
+        {
+            // the training cannot be completed while the class is removed
+            std::unique_lock<std::mutex> lock(event_mutex_);
+            if (models_still_training_ == 0) {
+                lock.unlock();
+                cancelTraining();
+                lock.lock();
+            }
+            auto it = models.find(label);
+            if (it == models.end())
+                throw std::out_of_range("Class " + label + " does not exist");
+            models.erase(it);
+        }
         if (!is_training_) reset();
     }
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f5b9ba1..08803df 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -353,7 +353,6 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
 
 void xmm::HierarchicalHMM::removeClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
 }
 
 void xmm::HierarchicalHMM::reset() {
-- 
2.43.0


From 1d474b6b95925b7028bc542fb6d3c4cbffeff5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 55/60] fix: accept the removal of the last class in training

---
 src/core/model/xmmModel.hpp | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index e78cad4..cc2051a 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -207,22 +207,17 @@ class Model : public Writable {
      @param label label of the class to remove
      */
     virtual void removeClass(std::string const& label) {
-        while (is_joining_) {
-        }
+        // the training cannot be completed while the classes are accessed
+        std::unique_lock<std::mutex> lock(event_mutex_, std::defer_lock);
+        lockClasses(lock);
+        if (models.count(label) == 0)
+            throw std::out_of_range("Class " + label + " does not exist");
+        lock.unlock();
         cancelTraining(label);
-        {
-            // the training cannot be completed while the class is removed
-            std::unique_lock<std::mutex> lock(event_mutex_);
-            if (models_still_training_ == 0) {
-                lock.unlock();
-                cancelTraining();
-                lock.lock();
-            }
-            auto it = models.find(label);
-            if (it == models.end())
-                throw std::out_of_range("Class " + label + " does not exist");
-            models.erase(it);
-        }
+        lockClasses(lock);
+        // unless it has been removed as a cancelled class
+        models.erase(label);
+        lock.unlock();
         if (!is_training_) reset();
     }
 
@@ -566,6 +561,20 @@ class Model : public Writable {
             joining_thread_.join();
     }
 
+    /**
+     @brief Holds back the end of the training of the remaining classes, or
+     waits until the training is complete if there are none
+     @param lock unlocked lock of event_mutex_
+     */
+    void lockClasses(std::unique_lock<std::mutex>& lock) {
+        lock.lock();
+        while (is_training_ && models_still_training_ == 0) {
+            lock.unlock();
+            cancelTraining();
+            lock.lock();
+        }
+    }
+
     /**
      @brief Monitors the training of each Model of the group.
      */
-- 
2.43.0


From 566f3bb144de6ebf1ec7f1e949a37a23a4e6b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 56/60] fix: do not look up the training threads while they are
 being joined

---
 src/core/model/xmmModel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index cc2051a..9c61a0c 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -410,10 +410,12 @@ class Model : public Writable {
                 cancel_required_ = false;
                 last = (models_still_training_ == 0);
                 // the thread still uses the class after its last event
-                auto thread = training_threads_.find(label);
-                if (!last && thread != training_threads_.end()) {
-                    thread->second.join();
-                    training_threads_.erase(thread);
+                if (!last) {
+                    auto thread = training_threads_.find(label);
+                    if (thread != training_threads_.end()) {
+                        thread->second.join();
+                        training_threads_.erase(thread);
+                    }
                 }
             }
             if (last) joinTraining();
-- 
2.43.0


From 3719c4e37eed4644ef4474e153b62c8c7585c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 57/60] fix: report no exit likelihood on the first observation
 of a hierarchical HMM

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 08803df..00ab58f 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -183,6 +183,9 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
             model.second.results.instant_likelihood =
                 model.second.alpha_h[0][0];
         }
+        // no exit is possible before the first transition
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
         norm_const += model.second.results.instant_likelihood;
         model_index++;
     }
-- 
2.43.0


From 4108270b8c0af3a918c5a7d30a4454d78c853521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 58/60] fix: report NaN means as a convergence error when
 training a GMM

---
 src/models/gmm/xmmGmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index e2818c1..e2ebbb1 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -455,6 +455,8 @@ double xmm::SingleClassGMM::emAlgorithmUpdate(TrainingSet* trainingSet) {
                 tbase += T;
             }
             components[c].mean[d] /= E[c];
+            if (std::isnan(components[c].mean[d]))
+                throw std::runtime_error("Convergence Error");
         }
     }
 
-- 
2.43.0


From 9a95c25a9f376b7fe303c340c158224a3b163f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 59/60] fix: keep the recognition of KMeans within the trained
 clusters

---
 src/models/kmeans/xmmKMeans.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 728fd07..f23d575 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -208,10 +208,13 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
-    results.distances.resize(configuration.clusters.get(), 0.0);
+    // the configuration can have changed since the training
+    unsigned int clusters =
+        static_cast<unsigned int>(centers.size()) / dimension;
+    results.distances.resize(clusters, 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
-    for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
+    for (unsigned int k = 0; k < clusters; ++k) {
         results.distances[k] = euclidean_distance(
             &observation[0], &centers[k * dimension], dimension);
         if (results.distances[k] < minDistance) {
-- 
2.43.0


From d4c4b79fa808dbccfa9bd2bc5e422bb97072f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 60/60] fix: elements of a vector attribute without a fixed
 size can be read

---
 src/core/common/xmmAttribute.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 6dce847..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -361,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -548,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
-- 
2.43.0

