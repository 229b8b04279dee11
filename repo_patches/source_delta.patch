From 22d13eb541846b5a1e92128e09f7985a6f8199b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:45 +0000
Subject: [PATCH 01/41] fix: forced list take re-checks for an element after
 waiting

BlockQueue::Dequeue(list, num, force=true) tested for an empty queue only once
after waiting; when another consumer took the element first, or on a spurious
wake-up, it took an element out of an empty queue (stale or duplicated element,
negative element count).
---
 include/sol/util/block_queue.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..8b46d36 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -146,14 +146,13 @@ class BlockQueue {
 
     int i = 0;
     for (i = 0; i < num; ++i) {
-      if (this->elem_num_ == 0) {
-        if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
-          this->nonfull_.notify_all();
-          this->nonempty_.wait();
-        } else {
-          break;
-        }
+      // the element waited for may be taken by others before we are woken up
+      while (this->elem_num_ == 0 && force == true && i > 0 &&
+             elem_list[i - 1] != nullptr) {
+        this->nonfull_.notify_all();
+        this->nonempty_.wait();
       }
+      if (this->elem_num_ == 0) break;
       elem_list[i] = this->elems_[this->head_];
       this->head_ = (this->head_ + 1) % this->queue_size_;
       --this->elem_num_;
-- 
2.43.0


From 907617d9067ffbec6de6c2ac0b0c66d87809431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:14 +0000
Subject: [PATCH 02/41] fix: DataIter destructor no longer blocks when a reader
 empties the factory

The destructor drained the free mini-batches with size() > 0 followed by a
blocking Dequeue(); a running reader taking the last free mini-batch in between
left the destructor waiting forever.
---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  5 ++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8b46d36..896f8a9 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  Take an element only if there is one, never blocks.
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return true if an element has been dequeued
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool has_elem = this->elem_num_ > 0;
+    if (has_elem) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return has_elem;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..dd16f83 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -27,9 +27,8 @@ DataIter::DataIter(int batch_size, int batch_num)
 
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  // clear mini_batch_factory_, a running reader may take mini-batches meanwhile
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
-- 
2.43.0


From 570891d9ee2044a5b7e58a95d3f7a58dafb3ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 03/41] fix: a number without any digit is not a number

NumericParser accepted '-', '.', 'e' or a blank as the number 0, so malformed
labels and values ('e 1:1', '1 3:-', '1, ,2') were returned as records.
---
 include/sol/pario/numeric_parser.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..aa91932 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -24,6 +24,12 @@ class SOL_EXPORTS NumericParser {
     return p;
   }
 
+  // whether there is any digit in [p, end)
+  static inline bool has_digit(const char* p, const char* end) {
+    while (p < end && (*p < '0' || *p > '9')) p++;
+    return p < end;
+  }
+
   // The following function is a home made strtoi
   static inline int ParseInt(char* p, char*& end) {
     end = p;
@@ -39,6 +45,7 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
+    char* num = p;
     int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
 
@@ -50,6 +57,7 @@ class SOL_EXPORTS NumericParser {
         num_dec++;
       }
     }
+    if (!has_digit(num, p)) return 0;
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
@@ -71,6 +79,7 @@ class SOL_EXPORTS NumericParser {
     p = strip_line(p);
 
     if (*p == '\0') return 0;
+    char* num = p;
     unsigned int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
 
@@ -82,6 +91,7 @@ class SOL_EXPORTS NumericParser {
         num_dec++;
       }
     }
+    if (!has_digit(num, p)) return 0;
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
@@ -114,6 +124,7 @@ class SOL_EXPORTS NumericParser {
       p++;
     }
 
+    char* num = p;
     int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
 
@@ -126,6 +137,7 @@ class SOL_EXPORTS NumericParser {
       }
       while (*p >= '0' && *p <= '9') p++;
     }
+    if (!has_digit(num, p)) return 0;
 
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
-- 
2.43.0


From 5a26378e573f832fc57c530867c48df78f1a3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 04/41] fix: text values with ten or more digits no longer
 overflow

ParseFloat accumulated all digits in an int: 1234.5678901 was read as a
negative number.
---
 include/sol/pario/numeric_parser.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index aa91932..f78b82d 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -125,14 +125,15 @@ class SOL_EXPORTS NumericParser {
     }
 
     char* num = p;
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    // an int overflows from ten digits on
+    double acc = 0;
+    while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
       while (*p >= '0' && *p <= '9') p++;
@@ -156,7 +157,7 @@ class SOL_EXPORTS NumericParser {
     if (exp_acc == 0) {
       return float(s * acc);
     } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+      return float(s * acc * pow(10.0, exp_acc));
     }
   }
 
-- 
2.43.0


From fcaea138251991150d23f05d4ece16dc1d2911fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 05/41] fix: line buffer no longer doubles each time a last
 line without line break is read

Each pass over a file that does not end with a line break doubled the buffer;
after 19 passes its size overflowed and the reader crashed.
---
 src/sol/pario/file_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..d28af54 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -106,9 +106,11 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
     }
   }
   while (strrchr(dst, '\n') == nullptr) {
+    len = int(strlen(dst));
+    // the last line without line break, the buffer is large enough
+    if (len + 1 < dst_len) break;
     dst_len *= 2;
     dst = (char*)realloc(dst, dst_len);
-    len = int(strlen(dst));
     if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
   }
   return Status_OK;
-- 
2.43.0


From f3e6ae53d0665900586390d6b0a5bc874b9f6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 06/41] fix: a binary file cut after a label does not yield a
 record

BinaryReader::Next returned false (Status_OK) when the number of features
could not be read.
---
 src/sol/pario/binary_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..a73a814 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
-- 
2.43.0


From df86293178cbb626cdf8251e443e0dc4a1d6ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 07/41] fix: index codes above 2^28 are decoded without int
 overflow

run_len_decode shifted 7-bit groups as int, so 64-bit indexes from 2^31 on did
not survive a round trip (undefined behaviour from 2^28 on).
---
 include/sol/pario/compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..a339369 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -33,8 +33,8 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
 inline const char* run_len_decode(
     const char* p, uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+  while (*p & 128) i = i | (uint64_t(*(p++) & 127) << 7 * count++);
+  i = i | (uint64_t(*(p++)) << 7 * count);
   return p;
 }
 
-- 
2.43.0


From e761b014a1ccd9ce4a38a12b6e19ccaf2e9f31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 08/41] fix: libsvm writer prints indexes as unsigned

Indexes from 2^31 on were written as negative numbers, which no reader accepts.
---
 src/sol/pario/svm_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..e62a7d6 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
-- 
2.43.0


From 1f1d147d67a30c076a249b14d3768f88b54ebe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 09/41] fix: analysis of data without features reports
 dimension 0

feat_dim - 1 underflowed to 18446744073709551615.
---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..06e3ea0 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
-- 
2.43.0


From e61724e97118486a9e17453fcd6117dffc84c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 10/41] fix: sol_split_data accepts a NULL destination type as
 documented

c_api.h: 'dst_type type of the destination data, if NULL, use src_type'; NULL
crashed.
---
 src/sol/c_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..b829cc7 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -189,5 +189,6 @@ int sol_shuffle_data(const char* src_path, const char* src_type,
 int sol_split_data(const char* src_path, const char* src_type, int fold,
                    const char* output_prefix, const char* dst_type,
                    bool shuffle) {
-  return split(src_path, src_type, fold, output_prefix, dst_type, shuffle);
+  return split(src_path, src_type, fold, output_prefix,
+               dst_type == NULL ? src_type : dst_type, shuffle);
 }
-- 
2.43.0


From 24fcfa8fc7e3ce43c879c72f836bcd0607984b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 11/41] fix: out of range numbers in an array description are
 refused

stoll throws out_of_range, which nobody caught.
---
 src/sol/pario/csr_matrix_reader.cc | 3 +++
 src/sol/pario/numpy_reader.cc      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sol/pario/csr_matrix_reader.cc b/src/sol/pario/csr_matrix_reader.cc
index bc3a93c..69711f6 100644
--- a/src/sol/pario/csr_matrix_reader.cc
+++ b/src/sol/pario/csr_matrix_reader.cc
@@ -50,6 +50,9 @@ int ParseAddr(T& dst, const std::string& src) {
   catch (invalid_argument&) {
     return Status_IO_Error;
   }
+  catch (out_of_range&) {
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index a10cbdf..1fc2408 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -48,6 +48,9 @@ int ParseAddr(T& dst, const std::string& src) {
   catch (invalid_argument&) {
     return Status_IO_Error;
   }
+  catch (out_of_range&) {
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
-- 
2.43.0


From be27ef0f652a833d28cc2bb9192baaada68b249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 12/41] fix: a data point that never held a feature can be
 sorted, checked and cloned

---
 src/sol/pario/data_point.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..d320dec 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -19,6 +19,7 @@ void DataPoint::Clone(DataPoint &dst_pt) const {
   dst_pt.label_ = this->label_;
   dst_pt.Reserve(this->size());
   dst_pt.Resize(this->size());
+  if (this->size() == 0) return;  // nothing may be allocated yet
   memcpy(dst_pt.indexes().begin(), this->indexes().begin(),
          this->size() * sizeof(index_t));
   memcpy(dst_pt.features().begin(), this->features().begin(),
@@ -41,9 +42,9 @@ void DataPoint::Clear() {
 }
 
 bool DataPoint::IsSorted() const {
-  for (auto iter = this->indexes().begin() + 1; iter < this->indexes().end();
-       ++iter) {
-    if (*iter <= *(iter - 1)) return false;
+  size_t sz = this->size();
+  for (size_t i = 1; i < sz; ++i) {
+    if (this->index(i) <= this->index(i - 1)) return false;
   }
   return true;
 }
-- 
2.43.0


From 151361758354c1b8727ce71c9e710ea2c9e3aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:00 +0000
Subject: [PATCH 13/41] fix: uniform hinge loss is returned, and losses without
 a competing class are zero

---
 src/sol/loss/bool_loss.cc     |  8 +++++---
 src/sol/loss/hinge_loss.cc    | 14 +++++++++-----
 src/sol/loss/logistic_loss.cc |  5 +++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sol/loss/bool_loss.cc b/src/sol/loss/bool_loss.cc
index bb11f82..4d34830 100644
--- a/src/sol/loss/bool_loss.cc
+++ b/src/sol/loss/bool_loss.cc
@@ -41,10 +41,10 @@ float MaxScoreBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
   label_t label = dp.label();
   float loss = predict_label == label ? 0.f : 1.f;
 
+  for (int i = 0; i < cls_num; ++i) {
+    gradient[i] = 0;
+  }
   if (loss > 0) {
-    for (int i = 0; i < cls_num; ++i) {
-      gradient[i] = 0;
-    }
     gradient[predict_label] = 1;
     gradient[label] = -1;
   }
@@ -77,6 +77,8 @@ float UniformBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
         gradient[i] = 0;
     }
     gradient[label] = -1;
+  } else {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
   }
   return loss;
 }
diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..3d2291e 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -81,8 +81,8 @@ float MaxScoreHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   } else {
     loss = (std::max)(0.0f,
                       this->margin_ - predict[label] + predict[predict_label]);
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     if (loss > 0) {
-      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
       gradient[predict_label] = 1;
       gradient[label] = -1;
     }
@@ -105,6 +105,7 @@ float UniformHingeLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) return 0;  // no class scores as high as the label
   return (std::max)(0.0f,
                     this->margin_ - predict[label] + false_predict / false_num);
 }
@@ -124,6 +125,9 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   false_num -= 1;
   false_predict -= predict[label];
 
+  for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+  if (false_num <= 0) return 0;  // no class scores as high as the label
+
   float alpha = 1.f / false_num;
   float loss = 0;
   if (this->margin_handler_) {
@@ -137,16 +141,16 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(0.0f,
+                      this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
         gradient[i] = 0;
       }
     }
   } else {
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(0.0f,
+                      this->margin_ - predict[label] + false_predict * alpha);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
         if (predict[label] <= predict[i]) {
diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..f7abbad 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -107,6 +107,7 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) return 0;  // no class scores as high as the label
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -132,6 +133,10 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) {  // no class scores as high as the label
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From deafb4395e1fffa150cc9593231434359ef6b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 14/41] fix: an instance without non-zero features no longer
 turns a pa model into NaN

---
 src/sol/model/olm/pa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/olm/pa.cc b/src/sol/model/olm/pa.cc
index 4df3a33..62755f0 100644
--- a/src/sol/model/olm/pa.cc
+++ b/src/sol/model/olm/pa.cc
@@ -19,7 +19,9 @@ PA::PA(int class_num) : OnlineLinearModel(class_num) {
 }
 void PA::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  this->eta_ = loss / (this->eta_coeff_ * Norm2(x));
+  real_t norm = Norm2(x);
+  if (norm == 0) return;  // nothing to learn from an empty instance
+  this->eta_ = loss / (this->eta_coeff_ * norm);
 
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
-- 
2.43.0


From cc2490117bc58d00788e6c0e61302899b7dc1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 15/41] fix: sop and ada-rda use the learned bias while
 training

---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 src/sol/model/olm/sop.cc     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..6be84c9 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -61,7 +61,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -254,7 +254,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..7567e61 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -56,6 +56,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // x carries no entry for the bias
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From b91319db4f1ef78f5340d54ddfd3be98c6db023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:23 +0000
Subject: [PATCH 16/41] fix: rda-l1 no longer turns the weights of the first
 record into NaN

---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..cb18e41 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -108,7 +108,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From ebd56dfc7646eab2c84ea626a956deedd36aac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:35 +0000
Subject: [PATCH 17/41] fix: stg truncates every class alike and counts each
 step once

---
 src/sol/model/olm/ogd.cc | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..2c23457 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -84,8 +84,11 @@ void STG::SetParameter(const std::string& name, const std::string& value) {
 
 void STG::BeginTrain() {
   OGD::BeginTrain();
-  this->last_trunc_time_.resize(this->dim_);
-  this->last_trunc_time_ = real_t(this->initial_t_);
+  // weights trained before keep their truncation time
+  if (this->cur_iter_num_ == this->initial_t_) {
+    this->last_trunc_time_.resize(this->dim_);
+    this->last_trunc_time_ = real_t(this->initial_t_);
+  }
 }
 
 label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
@@ -93,30 +96,37 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // trucate weights
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
   }
+  // truncate bias
+  real_t bias_step = real_t(t) - last_trunc_time_[0];
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], bias_step * l1_.lambda() * bias_eta());
+  }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
 void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  real_t bias_step = t - last_trunc_time_[0];
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
+    // truncate bias
+    w(c)[0] = truncate(bias, bias_step * l1_.lambda() * bias_eta());
   }
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
-- 
2.43.0


From 1c8d25fa0c3e785527f15aa5920eca1cf7da97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:42 +0000
Subject: [PATCH 18/41] fix: fobos-l1 and ada-fobos-l1 count each truncation
 step once and survive a larger model dimension

---
 include/sol/model/regularizer.h |  4 ++++
 src/sol/model/olm/ada_fobos.cc  | 11 +++++++++--
 src/sol/model/olm/ogd.cc        |  9 +++++++--
 src/sol/model/regularizer.cc    |  9 ++++++---
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..560aac8 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -76,6 +76,10 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
     return this->last_update_time_;
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
+  /// \brief  make room for the update time of more features
+  void update_dim(size_t dim);
+  /// \brief  all weights have been regularized up to time t
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
 
  protected:
   real_t initial_t_;
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..86c5730 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -100,13 +100,15 @@ AdaFOBOS_L1::AdaFOBOS_L1(int class_num) : AdaFOBOS(class_num) {
 label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   real_t t = real_t(cur_iter_num_ - 1);
+  real_t bias_step = t - l1_.last_update_time()[0];
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) =
         expr::truncate(w(c).slice(x), (eta_ * l1_.lambda()) *
                                           (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(
+        w(c)[0], bias_step * bias_eta() * l1_.lambda() / H_[c][0]);
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -114,13 +116,18 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
+  real_t bias_step = t - l1_.last_update_time()[0];
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(
+        bias, bias_step * bias_eta() * l1_.lambda() / H_[c][0]);
   }
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2c23457..7397c88 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -154,12 +154,13 @@ FOBOS_L1::FOBOS_L1(int class_num) : OGD(class_num) {
 label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   real_t t = real_t(cur_iter_num_ - 1);
+  real_t bias_step = t - l1_.last_update_time()[0];
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = truncate(w(c).slice(x),
                     (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(w(c)[0], bias_step * bias_eta() * l1_.lambda());
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -167,12 +168,16 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
+  real_t bias_step = t - l1_.last_update_time()[0];
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(bias, bias_step * bias_eta() * l1_.lambda());
   }
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..07a8511 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(size_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From f9dfcfb9c860032f86767178c6a3d48bc03cb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:45 +0000
Subject: [PATCH 19/41] fix: a record skipped by active learning is not
 regularized again

---
 src/sol/model/online_linear_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index 7cb3a03..d067565 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -69,6 +69,10 @@ label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
     }
     float prob = active_smoothness_ / (active_smoothness_ + margin);
     if (prob < dis(gen)) {
+      // the weights of dp have been regularized up to now
+      if (this->regularizer_ != nullptr) {
+        this->online_regularizer()->EndIterate(dp, this->cur_iter_num_);
+      }
       --this->cur_iter_num_;
       return label;
     }
-- 
2.43.0


From 39c58eab0b7fd269975c87a26c58c75c4de331c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:30 +0000
Subject: [PATCH 20/41] fix: fofs selects features by their current weights

---
 src/sol/model/olm/fofs.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..a9f779e 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -72,10 +72,10 @@ void FOFS::Update(const pario::DataPoint& dp, const float* predict,
 
   if (this->B_ > 0) {
     math::Vector<real_t>& abs_w = this->abs_weights_;
-    // update abosulte weights
-    abs_w = L1(w(0).slice(dp.data()));
+    // update abosulte weights, all of them have been scaled
+    abs_w = L1(w(0));
     for (int c = 1; c < this->clf_num_; ++c) {
-      abs_w += L1(w(c).slice(dp.data()));
+      abs_w += L1(w(c));
     }
 
     // update heap
-- 
2.43.0


From 479a8b6a6b78c5542b315f797a2d7d3f421eb96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:33 +0000
Subject: [PATCH 21/41] fix: sofs, adafobos-ofs and adarda-ofs keep their
 selection when training is resumed

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++++++
 src/sol/model/olm/ada_rda.cc   | 10 ++++++++++
 src/sol/model/olm/arow.cc      | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 86c5730..30050e0 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -173,6 +173,16 @@ void AdaFOBOS_OFS::BeginTrain() {
       }
     }
     this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    // a model trained before may have selected other features
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6be84c9..0083a2f 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -192,6 +192,16 @@ void AdaRDA_OFS::BeginTrain() {
       }
     }
     this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    // a model trained before may have selected other features
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..0ae8f53 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -151,6 +151,16 @@ void SOFS::BeginTrain() {
       }
     }
     this->max_heap_.Init(this->dim_ - 1, B, this->Sigma_sum_->data() + 1);
+    // a model trained before may have selected other features
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->max_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
-- 
2.43.0


From 8aa9696a3c00da00e14e422e8e74f11f7d74f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:37 +0000
Subject: [PATCH 22/41] fix: normalizing an all-zero instance leaves it zero

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..2af28e1 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -302,11 +302,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm != 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm != 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From 02143d3f6396f964f6fa77c3390d6a0f7cfc1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:03 +0000
Subject: [PATCH 23/41] fix: an empty or invalid feature filter is refused and
 the filter in force kept

---
 src/sol/model/model.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 2af28e1..113517d 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -325,9 +325,6 @@ void Model::FilterFeatures(DataPoint& x) {
 }
 
 int Model::LoadPreSelFeatures(const string& path) {
-  this->max_index_ = 0;
-  this->sel_feat_flags_.clear();
-
   ifstream in_file(path.c_str(), ios::in);
   if (!in_file) {
     cerr << "open file " << path << " failed\n!";
@@ -344,13 +341,18 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
-    if (index <= 0) {
+    int value = stoi(line);
+    if (value <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
+    index = (index_t)(value);
     indexes.push_back(index);
   }
+  if (indexes.empty()) {
+    cerr << "no feature selected in " << path << "\n";
+    return Status_Invalid_Format;
+  }
 
   // find the max index
   this->max_index_ = *(std::max_element)(indexes.begin(), indexes.end());
-- 
2.43.0


From 4c8a4b0da3fdc7d6dfce7391b5286a9a7f2da8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:52 +0000
Subject: [PATCH 24/41] fix: a model saved right after training is finalized
 first

---
 include/sol/model/model.h | 2 +-
 src/sol/model/model.cc    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..6475631 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -82,7 +82,7 @@ class SOL_EXPORTS Model {
   /// \param path path to save the model
   ///
   /// \return status code, 0 if saved successfully
-  int Save(const std::string &path) const;
+  int Save(const std::string &path);
 
   /// \brief  load model from file
   ///
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 113517d..9c5cb87 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -157,7 +157,10 @@ void Model::BeginTrain() {
   this->require_reinit_ = false;
 }
 
-int Model::Save(const string& path) const {
+int Model::Save(const string& path) {
+  // what is saved is the model used for predictions
+  if (this->model_updated_) this->EndTrain();
+
   ofstream out_file(path.c_str(), ios::out);
   if (!out_file) {
     cerr << "open file " << path << " failed\n";
-- 
2.43.0


From dc4b39c90d7b1b9da4b80a1256890593c432f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:00 +0000
Subject: [PATCH 25/41] fix: active_smoothness, sparse_thresh, the current step
 size and fofs without budget survive save and load

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/olm/fofs.cc       | 2 +-
 src/sol/model/olm/ogd.cc        | 4 ++++
 src/sol/model/online_model.cc   | 5 +++--
 src/sol/model/regularizer.cc    | 5 +++++
 5 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index 560aac8..81aa764 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -58,6 +58,8 @@ class SOL_EXPORTS OnlineL1Regularizer : public OnlineRegularizer {
 
   virtual void FinalizeRegularization(math::Vector<real_t> &w);
 
+  virtual void GetRegularizerInfo(Json::Value &root) const;
+
  protected:
   real_t sparse_thresh_;
 };
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index a9f779e..3898c74 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -108,7 +108,7 @@ void FOFS::GetModelInfo(Json::Value& root) const {
   OnlineLinearModel::GetModelInfo(root);
   root["online"]["eta"] = this->eta_;
   root["online"]["lambda"] = this->lambda_;
-  root["online"]["B"] = this->B_;
+  if (this->B_ > 0) root["online"]["B"] = this->B_;
 }
 
 RegisterModel(FOFS, "fofs", "First Order Online Feature Selection");
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 7397c88..65c27dd 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -26,6 +26,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "eta") {
     this->eta0_ = stof(value);
     Check(eta0_ >= 0);
+  } else if (name == "cur_eta") {
+    this->eta_ = stof(value);
+    Check(eta_ >= 0);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -46,6 +49,7 @@ void OGD::GetModelInfo(Json::Value& root) const {
   OnlineLinearModel::GetModelInfo(root);
   root["online"]["power_t"] = this->power_t_;
   root["online"]["eta"] = this->eta0_;
+  root["online"]["cur_eta"] = this->eta_;
 }
 
 // calculate power t
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..aac47a0 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -204,7 +204,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 07a8511..de0d729 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -41,6 +41,11 @@ int OnlineL1Regularizer::SetParameter(const std::string &name,
   return Status_OK;
 }
 
+void OnlineL1Regularizer::GetRegularizerInfo(Json::Value &root) const {
+  OnlineRegularizer::GetRegularizerInfo(root);
+  root["regularizer"]["sparse_thresh"] = this->sparse_thresh_;
+}
+
 void OnlineL1Regularizer::FinalizeRegularization(math::Vector<real_t> &w) {
   float thresh = this->sparse_thresh_;
   w.slice_op([thresh](real_t &val) {
-- 
2.43.0


From 6416e52642409ed83bc13e8dbe973df06d4ada13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:10 +0000
Subject: [PATCH 26/41] fix: damaged model files are refused and failed saves
 reported

---
 include/sol/math/matrix.h |  3 ++-
 src/sol/model/model.cc    | 38 +++++++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..79d822c 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -211,7 +211,8 @@ std::istream& operator>>(std::istream& is, Matrix<DType>& mat) {
   for (size_t i = 0; i < s2d[0]; ++i) {
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '[');
     for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;
-    is.ignore((std::numeric_limits<std::streamsize>::max)(), ']');
+    char end = 0;
+    if (!(is >> end) || end != ']') is.setstate(std::ios::failbit);
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '\n');
   }
   return is;
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 9c5cb87..ab8e369 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -176,6 +176,10 @@ int Model::Save(const string& path) {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write file " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
@@ -195,38 +199,42 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
+    while (line != "model parameters:" && getline(in_file, line)) {
       model_info << line;
     }
     Json::Value root;
     Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
+    if (!in_file || reader.parse(model_info.str(), root) == false ||
+        root.isObject() == false) {
       cerr << "parse model file " << path << " failed\n";
       ret = Status_Invalid_Format;
     }
 
     if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
-        ret = Status_Invalid_Format;
-      } else {
-        try {
+      try {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", 0).asInt();
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
           ret = model->SetModelInfo(root);
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
-        }
+      }
+      catch (exception& err) {
+        cerr << "set model parameter failed: " << err.what() << "\n";
+        ret = Status_Invalid_Argument;
       }
     }
   }
 
   if (ret == Status_OK) {
     ret = model->SetModelParam(in_file);
+    if (!in_file) {
+      cerr << "incomplete model parameters in " << path << "\n";
+      ret = Status_Invalid_Format;
+    }
   }
   if (ret != Status_OK) {
     DeletePointer(model);
-- 
2.43.0


From 2fcaa66e95a0f6310272eddddf90e9f1509cb8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:13 +0000
Subject: [PATCH 27/41] fix: a refused parameter leaves the model as it was

---
 include/sol/model/model.h       |  8 ++++++++
 src/sol/model/model.cc          | 29 ++++++++++++++++++-----------
 src/sol/model/olm/ada_fobos.cc  | 10 ++++++----
 src/sol/model/olm/ada_rda.cc    | 10 ++++++----
 src/sol/model/olm/alma2.cc      | 23 ++++++++++++++---------
 src/sol/model/olm/arow.cc       |  5 ++---
 src/sol/model/olm/cw.cc         |  5 ++---
 src/sol/model/olm/eccw.cc       |  5 ++---
 src/sol/model/olm/fofs.cc       | 15 +++++++++------
 src/sol/model/olm/ogd.cc        | 15 +++++++++------
 src/sol/model/olm/perceptron.cc |  5 ++---
 src/sol/model/olm/rda.cc        | 10 ++++++----
 src/sol/model/olm/sop.cc        |  5 ++---
 src/sol/model/online_model.cc   | 19 ++++++++++++-------
 14 files changed, 98 insertions(+), 66 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6475631..269facf 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -131,6 +131,14 @@ class SOL_EXPORTS Model {
   virtual int SetModelInfo(const Json::Value &root);
 
  protected:
+  /// \brief  refuse a loss function that is not of the required type
+  ///
+  /// \param name name of the loss function
+  /// \param type required type
+  /// \param msg message of the exception
+  static void CheckLossType(const std::string &name, loss::Loss::Type type,
+                            const std::string &msg);
+
   /// \brief  calibrate labels
   ///
   /// \param x data point
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index ab8e369..2a66d2f 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -61,19 +61,17 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
-    DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
-    if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
-      throw invalid_argument(
+    if (this->clf_num_ == 1) {
+      CheckLossType(
+          value, loss::Loss::Type::BC,
           "onlye binary loss function can be used with binary problems");
-    } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
-      throw invalid_argument(
-          "onlye multiclass loss function can be used with multiclass "
-          "problems");
+    } else {
+      CheckLossType(value, loss::Loss::Type::MC,
+                    "onlye multiclass loss function can be used with "
+                    "multiclass problems");
     }
+    DeletePointer(this->loss_);
+    this->loss_ = loss::Loss::Create(value);
     this->require_reinit_ = true;
   } else if (name == "norm") {
     int norm_val = -1;
@@ -114,6 +112,15 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void Model::CheckLossType(const string& name, loss::Loss::Type type,
+                          const string& msg) {
+  loss::Loss* loss = loss::Loss::Create(name);
+  Check(loss != nullptr);
+  bool is_valid = (loss->type() & type) != 0;
+  DeletePointer(loss);
+  if (!is_valid) throw invalid_argument(msg);
+}
+
 float Model::Test(DataIter& data_iter, std::ostream* os) {
   if (this->model_updated_) this->EndTrain();
 
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 30050e0..9663a60 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float val = stof(value);
+    Check(val > 0);
+    this->delta_ = val;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->eta_ = val;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 0083a2f..aa0c52d 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float val = stof(value);
+    Check(val > 0);
+    this->delta_ = val;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->eta_ = val;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..d3f93d7 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -38,26 +38,31 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float val = stof(value);
+    Check(val > 0);
+    Check(val <= 1);
+    this->alpha_ = val;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int val = stoi(value);
+    Check(val > 0);
+    this->k_ = val;
     this->require_reinit_ = true;
   } else if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::HINGE,
+                        "only hinge-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
+    op::OpType norm_type = this->norm_type_;
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    if (this->norm_type_ != op::OpType::kL2) {
+      this->norm_type_ = norm_type;
+      throw invalid_argument("only L2 normalization is allowed");
+    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 0ae8f53..e15b1cb 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -37,10 +37,9 @@ void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
   } else if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::HINGE,
+                        "only hinge-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..07412b2 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -45,10 +45,9 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->phi_ = stof(value);
     this->require_reinit_ = true;
   } else if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::HINGE,
+                        "only hinge-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..a21941d 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -46,10 +46,9 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->set_phi(stof(value));
     this->require_reinit_ = true;
   } else if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::HINGE,
+                        "only hinge-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 3898c74..f7c90d3 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,14 +18,17 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->eta_ = val;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->lambda_ = val;
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int val = stoi(value);
+    Check(val > 0);
+    this->B_ = static_cast<index_t>(val);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 65c27dd..5e741a0 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,11 +24,13 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->eta0_ = val;
   } else if (name == "cur_eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->eta_ = val;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -79,8 +81,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int val = stoi(value);
+    Check(val > 0);
+    this->k_ = val;
   } else {
     OGD::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..bbd3000 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -25,10 +25,9 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
 void Perceptron::SetParameter(const std::string& name,
                               const std::string& value) {
   if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::BOOL,
+                        "only bool-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index cb18e41..dbe6aea 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float val = stof(value);
+    Check(val > 0);
+    this->sigma_ = val;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->rou_ = val;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 7567e61..be06b8f 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -36,10 +36,9 @@ void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
   } else if (name == "loss") {
+    this->CheckLossType(value, loss::Loss::Type::BOOL,
+                        "only bool-based loss functions are allowed");
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index aac47a0..92755fa 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,28 +81,33 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float val = stof(value);
+    Check(val >= 0);
+    this->bias_eta0_ = val;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int val = stoi(value);
+    Check(val >= 0);
+    this->update_dim(val);
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float val = stof(value);
+    Check(val > 0);
+    this->active_smoothness_ = val;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float val = stof(value);
+    Check(val > 0);
+    this->cost_margin_ = val;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
-- 
2.43.0


From 5e71c81c5af498cbb3a3f2daf68a9331a903e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:15 +0000
Subject: [PATCH 28/41] fix: sol_SetModelParameter reports numbers that are out
 of range

---
 src/sol/c_api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index b829cc7..dd8a2b4 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -65,7 +65,7 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  catch (logic_error& err) {  // invalid_argument or out_of_range
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
-- 
2.43.0


From 0c4567c4364bd8adfa674b7656157f41d5171c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 29/41] fix: a feature budget set after training has begun
 takes effect instead of crashing

---
 src/sol/model/olm/ada_fobos.cc |  3 ++-
 src/sol/model/olm/ada_rda.cc   |  3 ++-
 src/sol/model/olm/arow.cc      |  3 ++-
 src/sol/model/olm/fofs.cc      | 14 ++++++++++++++
 src/sol/model/olm/ogd.cc       | 14 +++++++++++++-
 5 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 9663a60..96f0d9f 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -151,8 +151,9 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 }
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaFOBOS::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index aa0c52d..41a3e04 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -170,8 +170,9 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaRDA::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaRDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index e15b1cb..3abead4 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -126,8 +126,9 @@ SOFS::~SOFS() {
 }
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AROW::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AROW::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index f7c90d3..e56ad75 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -21,14 +21,17 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     float val = stof(value);
     Check(val >= 0);
     this->eta_ = val;
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     float val = stof(value);
     Check(val >= 0);
     this->lambda_ = val;
+    this->require_reinit_ = true;
   } else if (name == "B") {
     int val = stoi(value);
     Check(val > 0);
     this->B_ = static_cast<index_t>(val);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -52,6 +55,17 @@ void FOFS::BeginTrain() {
       abs_w += L1(w(i));
     }
     this->min_heap_.Init(this->dim_ - 1, this->B_, abs_w.data() + 1);
+    // a model trained before may have selected other features
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+        abs_w[ret_idx] = 0;
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 5e741a0..ecde44b 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -196,8 +196,9 @@ PET::PET(int class_num) : OGD(class_num) { this->regularizer_ = &(this->l0_); }
 PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     OGD::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     OGD::SetParameter(name, value);
   }
@@ -219,6 +220,17 @@ void PET::BeginTrain() {
       abs_w += L1(w(i));
     }
     this->min_heap_.Init(this->dim_ - 1, B, abs_w.data() + 1);
+    // a model trained before may have selected other features
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+        abs_w[ret_idx] = 0;
+      }
+    }
   }
 }
 
-- 
2.43.0


From 45860439416cdfe7327ace13314d850dda515d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 30/41] fix: adarda-ofs given a budget after training can be
 finalized

---
 src/sol/model/olm/ada_rda.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 41a3e04..2d1803a 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -292,7 +292,8 @@ void AdaRDA_OFS::EndTrain() {
 
   //truncate weights
   index_t B = static_cast<index_t>(this->l0_.lambda());
-  if (B > 0) {
+  // a budget set after training has no selection yet
+  if (B > 0 && this->min_heap_.K() > 0) {
     for (size_t i = 1; i < this->dim_; ++i) {
       index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
       if (ret_idx != invalid_index) {
-- 
2.43.0


From 622a62afef956fa7a647f49f26f606a6b5276bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:11 +0000
Subject: [PATCH 31/41] fix: a refused display interval keeps the one in force

---
 src/sol/model/online_model.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 92755fa..1a816c1 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -111,11 +111,13 @@ void OnlineModel::SetParameter(const std::string& name,
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    int val = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = new ExpIterDisplayer(val);
   } else if (name == "step_show") {
+    int val = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = new StepIterDisplayer(val);
   } else {
     Model::SetParameter(name, value);
   }
-- 
2.43.0


From 9d7515facc9a00cc025476fa469ca4321b1c69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:16 +0000
Subject: [PATCH 32/41] fix: data tools report output that could not be written
 in full

---
 include/sol/pario/data_writer.h | 5 +++++
 include/sol/pario/file_writer.h | 7 +++++++
 src/sol/pario/file_writer.cc    | 8 ++++++++
 src/sol/tools.cc                | 6 +++++-
 tools/concat.cc                 | 1 +
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..b022e75 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -38,6 +38,11 @@ class SOL_EXPORTS DataWriter {
   /// \brief Close the reader
   virtual void Close() { this->file_writer_.Close(); }
 
+  /// \brief  Hand all the buffered data to the operating system
+  ///
+  /// \return Status code,  Status_OK if all the data was written
+  virtual int Flush() { return this->file_writer_.Flush(); }
+
   /// \brief  Check the status of the data handler
   ///
   /// \return True if everything is ok
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..84c1d7b 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -45,6 +45,13 @@ class SOL_EXPORTS FileWriter {
    */
   bool Good();
 
+  /**
+   * Flush : Hand all the buffered data to the operating system
+   *
+   * \return: Status code, Status_OK if all the data was written
+   */
+  int Flush();
+
  public:
   /**
    * \brief  Write the data with specified length to file
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..5e45019 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -59,6 +59,14 @@ bool FileWriter::Good() {
   return this->file_ != nullptr && ferror(this->file_) == 0;
 }
 
+int FileWriter::Flush() {
+  if (this->file_ == nullptr || fflush(this->file_) != 0 ||
+      this->Good() == false) {
+    return Status_IO_Error;
+  }
+  return Status_OK;
+}
+
 int FileWriter::Write(char* src_buf, size_t length) {
   size_t write_len = fwrite(src_buf, 1, length, this->file_);
   if (write_len == length) {
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 06e3ea0..32d9f80 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -95,7 +95,7 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
-  return ret;
+  return fw.Flush();
 }
 
 int convert(const string& src_path, const string& src_type,
@@ -163,6 +163,7 @@ int convert(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples converted\n";
+  ret = writer->Flush();
   writer->Close();
   delete writer;
   return ret;
@@ -215,6 +216,7 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     writer->Write(*data);
     delete data;
   }
+  ret = writer->Flush();
   writer->Close();
   delete writer;
   return ret;
@@ -278,8 +280,10 @@ int split(const string& src_path, const string& src_type, int fold_num,
       delete data_list[data_idx];
     }
     end_idx += data_split_num;
+    ret = writer->Flush();
     writer->Close();
     delete writer;
+    if (ret != Status_OK) break;
   }
   return ret;
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..10935bf 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -93,6 +93,7 @@ int main(int argc, char** argv) {
     }
   }
 
+  ret = writer->Flush();
   writer->Close();
   delete writer;
   cout << data_num << " examples concatenated to " << dst_path << "\n";
-- 
2.43.0


From 885174051e05f47aadb6bd475136a1e952fb1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:53 +0000
Subject: [PATCH 33/41] fix: sol_train reports a model that could not be saved

---
 tools/sol_train.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..14b8aaf 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -94,7 +94,8 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
+    if (ret != Status_OK) return ret;
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-- 
2.43.0


From 7a84f71dc16c5520d40d7c8ca7d1427293340d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:04 +0000
Subject: [PATCH 34/41] fix: sol_train reports numbers that are out of range

---
 tools/sol_train.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 14b8aaf..c35805e 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -71,7 +71,7 @@ int train(cmdline::parser& parser) {
       try {
         model->SetParameter(strip(opt_pair[0]), strip(opt_pair[1]));
       }
-      catch (invalid_argument& err) {
+      catch (logic_error& err) {  // invalid_argument or out_of_range
         fprintf(stderr, "%s\n", err.what());
         return Status_Invalid_Argument;
       }
-- 
2.43.0


From 04c46ed03d14a490f0a3567438ead387a5df639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:53 +0000
Subject: [PATCH 35/41] fix: lsol_c prints the accuracy, not the error rate, as
 accuracy

---
 include/sol/c_api.h | 4 ++--
 tools/lsol_c.cc     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sol/c_api.h b/include/sol/c_api.h
index d832205..32cf3b5 100644
--- a/include/sol/c_api.h
+++ b/include/sol/c_api.h
@@ -112,7 +112,7 @@ SOL_EXPORTS void sol_GetModelParameters(void* model,
 /// \param model model to be trained
 /// \param data_iter data iterator
 ///
-/// \return training accuracy
+/// \return training error rate
 SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 
 /// \brief  test a model
@@ -122,7 +122,7 @@ SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 /// \param output_path path to save the predicted results, if no need, leave it
 /// empty
 ///
-/// \return test accuracy
+/// \return test error rate
 SOL_EXPORTS float sol_Test(void* model, void* data_iter,
                            const char* output_path);
 
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..acc6a1a 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -90,8 +90,8 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
-    fprintf(stdout, "training accuracy: %.4f\n", accu);
+    float err_rate = sol_Train(model, data_iter);
+    fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
 
     // save model
     if (parser.exist("output")) {
@@ -134,8 +134,8 @@ int test(cmdline::parser& parser) {
       output_path = parser.get<string>("output").c_str();
     }
 
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From 98bc2ece91c6f44c362889ed0bd375155fb1b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:54 +0000
Subject: [PATCH 36/41] fix: lsol_c does not filter a model that could not be
 loaded

---
 tools/lsol_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index acc6a1a..ff40705 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -116,7 +116,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
-- 
2.43.0


From 60096aa40e822d291015002ecfac8551cb13d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 37/41] fix: eccw compares the margin with the standard
 deviation, so that its step is never negative

---
 src/sol/model/olm/eccw.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index a21941d..9312a77 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -77,13 +77,13 @@ void ECCW::BeginTrain() {
       *vt += expr::dotmul(sigmas[c], L2(x)) * gc2;
       if (bias_eta != 0) *vt += sigmas[c][0] * gc2;
     }
-    return phi * *vt;
+    return phi * sqrtf(*vt);
   });
 }
 
 void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  float mi = phi_ * vi_ - loss;
+  float mi = phi_ * sqrtf(vi_) - loss;
   float tmp = mi * phi_ * phi_;
   float alpha_i =
       (-mi * psi_ + sqrtf(tmp * tmp * 0.25f + vi_ * phi_ * phi_ * xi_)) /
-- 
2.43.0


From c60b519111a6823085b36ad0d8d1e901199ff32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 38/41] fix: ada-rda-l1 predicts a training record with the
 threshold of the steps made

---
 src/sol/model/olm/ada_rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 2d1803a..d97eae5 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -131,7 +131,7 @@ AdaRDA_L1::AdaRDA_L1(int class_num) : AdaRDA(class_num) {
 
 label_t AdaRDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t trunc_thresh = real_t(l1_.lambda() * cur_iter_num_);
+  real_t trunc_thresh = real_t(l1_.lambda() * (cur_iter_num_ - 1));
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = -eta_ * expr::truncate(ut_[c].slice(x), trunc_thresh) / H_[c];
-- 
2.43.0


From 40b5854fea2fd7cf2a2faddfe75f601d40c2c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:38 +0000
Subject: [PATCH 39/41] fix: reading an element of a const Matrix ignored the
 row

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 79d822c..2161f0a 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0


From 1e545eb622286d93991c1f2990b6518deefd269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:55 +0000
Subject: [PATCH 40/41] fix: a feature filter with an index that is no number
 or out of range is refused by its status

---
 src/sol/model/model.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 2a66d2f..94f995c 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -359,7 +359,13 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    int value = stoi(line);
+    int value = 0;
+    try {
+      value = stoi(line);
+    }
+    catch (logic_error&) {  // not a number, or out of range
+      value = 0;
+    }
     if (value <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
-- 
2.43.0


From 6fbf61caa14399aee732da235d732803e37baa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:30 +0000
Subject: [PATCH 41/41] fix: rows of a dense array more than 2 GB after its
 start were read from a wrong address

---
 src/sol/pario/numpy_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index 1fc2408..b3abfa8 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -85,7 +85,8 @@ int NumpyReader::Next(DataPoint& dst_data) {
   }
 
   // 2. parse features
-  double* ptr = (double*)((char*)this->X_ + this->x_idx_ * this->stride_);
+  double* ptr =
+      (double*)((char*)this->X_ + (long long)(this->x_idx_) * this->stride_);
   for (int j = 0; j < this->n_features_; ++j, ++ptr) {
     if (*ptr != 0) {
       dst_data.AddNewFeat(j + 1, static_cast<real_t>(*ptr));
-- 
2.43.0

