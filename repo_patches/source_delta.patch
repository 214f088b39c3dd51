From 6eb3540f2b9d370a6cec70a11129b29ae463e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 01/55] fix: decode compressed indexes of 2^31 and above in
 64-bit arithmetic

---
 include/sol/pario/compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..a339369 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -33,8 +33,8 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
 inline const char* run_len_decode(
     const char* p, uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+  while (*p & 128) i = i | (uint64_t(*(p++) & 127) << 7 * count++);
+  i = i | (uint64_t(*(p++)) << 7 * count);
   return p;
 }
 
-- 
2.43.0


From a5fecbb2acb633fd578a284c451a34799bd3cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 02/55] fix: begin/end of a vector that was never given a size

---
 include/sol/math/vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sol/math/vector.h b/include/sol/math/vector.h
index ff749f7..a57d3b7 100644
--- a/include/sol/math/vector.h
+++ b/include/sol/math/vector.h
@@ -108,14 +108,16 @@ class Vector : public Matrix<DType> {
   }
   inline size_t size() const { return this->dim(); }
 
-  inline DType* begin() { return this->storage_->begin(); }
-  inline const DType* begin() const { return this->storage_->begin(); }
-
-  inline DType* end() { return this->storage_->begin() + this->size(); }
-  inline const DType* end() const {
-    return this->storage_->begin() + this->size();
+  inline DType* begin() {
+    return this->storage_ == nullptr ? nullptr : this->storage_->begin();
+  }
+  inline const DType* begin() const {
+    return this->storage_ == nullptr ? nullptr : this->storage_->begin();
   }
 
+  inline DType* end() { return this->begin() + this->size(); }
+  inline const DType* end() const { return this->begin() + this->size(); }
+
   inline const DType& front() const { return *(this->begin()); }
   inline DType& front() { return *(this->begin()); }
 
-- 
2.43.0


From da7d1129fed9cb126ed6b62262e542922e809ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:21 +0000
Subject: [PATCH 03/55] fix: indexes and values of a sparse vector that never
 got a feature

---
 include/sol/math/sparse_vector.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/sol/math/sparse_vector.h b/include/sol/math/sparse_vector.h
index af2cea7..0f2ccb3 100644
--- a/include/sol/math/sparse_vector.h
+++ b/include/sol/math/sparse_vector.h
@@ -131,16 +131,28 @@ class SVector
     return this->values_ == nullptr ? empty_shape : this->values_->shape();
   }
 
-  inline bool empty() const { return this->values_->empty(); }
+  inline bool empty() const { return this->values().empty(); }
 
   /// accessing elements
-  inline Vector<index_t>& indexes() { return *(this->indexes_); }
-  inline const Vector<index_t>& indexes() const { return *(this->indexes_); }
+  inline Vector<index_t>& indexes() {
+    this->init();
+    return *(this->indexes_);
+  }
+  inline const Vector<index_t>& indexes() const {
+    static const Vector<index_t> empty_indexes;
+    return this->indexes_ == nullptr ? empty_indexes : *(this->indexes_);
+  }
   inline index_t& index(size_t idx) { return this->indexes()[idx]; }
   inline const index_t& index(size_t idx) const { return this->indexes()[idx]; }
 
-  inline Vector<DType>& values() { return *(this->values_); }
-  inline const Vector<DType>& values() const { return *(this->values_); }
+  inline Vector<DType>& values() {
+    this->init();
+    return *(this->values_);
+  }
+  inline const Vector<DType>& values() const {
+    static const Vector<DType> empty_values;
+    return this->values_ == nullptr ? empty_values : *(this->values_);
+  }
   inline DType& value(size_t idx) { return this->values()[idx]; }
   inline const DType& value(size_t idx) const { return this->values()[idx]; }
 
-- 
2.43.0


From 6460d55212ebe089021f338d874c38c2ace107b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:21 +0000
Subject: [PATCH 04/55] fix: report a binary record cut off in its feature
 count as malformed

---
 src/sol/pario/binary_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..a73a814 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
-- 
2.43.0


From ae2941538e4cd050957fb6e65e9fdbaf9b9071df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:37 +0000
Subject: [PATCH 05/55] fix: binary reader checks the coded index length and
 end before decoding

---
 src/sol/pario/binary_reader.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index a73a814..febc61e 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -41,10 +41,28 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "read coded index length failed!\n");
       return Status_Invalid_Format;
     }
-    this->comp_codes_.resize(code_len);
-    ret = this->file_reader_.Read(this->comp_codes_.begin(), code_len);
-    if (ret != Status_OK) {
-      fprintf(stderr, "read coded index failed!\n");
+    // every index takes at least one byte
+    if (code_len < feat_num) {
+      fprintf(stderr, "coded index length is not correct!\n");
+      return Status_Invalid_Format;
+    }
+    // read in pieces so that a damaged length meets the end of the file before
+    // it makes us allocate more than the file can hold
+    const size_t kPiece = 1 << 20;
+    this->comp_codes_.clear();
+    for (size_t pos = 0; pos < code_len;) {
+      size_t len = code_len - pos < kPiece ? code_len - pos : kPiece;
+      this->comp_codes_.resize(pos + len);
+      ret = this->file_reader_.Read(this->comp_codes_.begin() + pos, len);
+      if (ret != Status_OK) {
+        fprintf(stderr, "read coded index failed!\n");
+        return Status_Invalid_Format;
+      }
+      pos += len;
+    }
+    // the code of the last index must end within the codes
+    if (this->comp_codes_.back() & 128) {
+      fprintf(stderr, "coded index is truncated!\n");
       return Status_Invalid_Format;
     }
     dst_data.Resize(feat_num);
-- 
2.43.0


From 8bcc43dd495700941343efe33a5d1740101affed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:51 +0000
Subject: [PATCH 06/55] fix: numeric parser does not take a text without digits
 for zero

---
 include/sol/pario/numeric_parser.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..b18a7de 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -24,6 +24,13 @@ class SOL_EXPORTS NumericParser {
     return p;
   }
 
+  static inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
+
+  // whether a number (without sign) starts at p
+  static inline bool is_number(char* p) {
+    return is_digit(*p) || (*p == '.' && is_digit(*(p + 1)));
+  }
+
   // The following function is a home made strtoi
   static inline int ParseInt(char* p, char*& end) {
     end = p;
@@ -39,6 +46,8 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
+    // no number, return 0, end == p
+    if (!is_number(p)) return 0;
     int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
 
@@ -70,7 +79,7 @@ class SOL_EXPORTS NumericParser {
     end = p;
     p = strip_line(p);
 
-    if (*p == '\0') return 0;
+    if (!is_number(p)) return 0;
     unsigned int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
 
@@ -108,11 +117,13 @@ class SOL_EXPORTS NumericParser {
     if (*p == '\0') return 0;
 
     int s = 1;
-    if (*p == '+') p++;
-    if (*p == '-') {
+    if (*p == '+')
+      p++;
+    else if (*p == '-') {
       s = -1;
       p++;
     }
+    if (!is_number(p)) return 0;
 
     int acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
-- 
2.43.0


From 29d7d96cf47aabc4371255b95cf23b209607dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 07/55] fix: numeric parser no longer overflows on numbers of
 ten and more digits

---
 include/sol/pario/numeric_parser.h | 67 ++++++++++++++++++------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index b18a7de..bd5ac6a 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -9,6 +9,7 @@
 #define SOL_PARIO_NUMERIC_PARSER_H__
 
 #include <cmath>
+#include <cstdint>
 
 namespace sol {
 namespace pario {
@@ -26,6 +27,11 @@ class SOL_EXPORTS NumericParser {
 
   static inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
 
+  // append a digit, numbers that do not fit in 32 bits are all the same
+  static inline uint64_t AddDigit(uint64_t acc, char c) {
+    return acc > 4294967295u ? acc : acc * 10 + (c - '0');
+  }
+
   // whether a number (without sign) starts at p
   static inline bool is_number(char* p) {
     return is_digit(*p) || (*p == '.' && is_digit(*(p + 1)));
@@ -48,30 +54,32 @@ class SOL_EXPORTS NumericParser {
     }
     // no number, return 0, end == p
     if (!is_number(p)) return 0;
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    uint64_t acc = 0;
+    while (*p >= '0' && *p <= '9') acc = AddDigit(acc, *p++);
 
-    int num_dec = 0;
+    uint64_t num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+        acc = AddDigit(acc, *p++);
         num_dec++;
       }
     }
-    int exp_acc = 0;
+    uint64_t exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      while (*p >= '0' && *p <= '9') exp_acc = AddDigit(exp_acc, *p++);
+    }
+    if (exp_acc < num_dec) return 0;
+    for (; exp_acc > num_dec && acc != 0 && acc <= 4294967295u; --exp_acc) {
+      acc = AddDigit(acc, '0');
     }
-    if (exp_acc < num_dec)
-      return 0;
-    else if (exp_acc > 0)
-      acc *= (int)(powf(10.f, (float)(exp_acc - num_dec)));
+    // out of range, return 0, end == p
+    if (acc > (s > 0 ? 2147483647u : 2147483648u)) return 0;
 
     end = strip_line(p);
-    return s * acc;
+    return (int)(s * (int64_t)acc);
   }
 
   // The following function is a home made strtoi
@@ -80,29 +88,31 @@ class SOL_EXPORTS NumericParser {
     p = strip_line(p);
 
     if (!is_number(p)) return 0;
-    unsigned int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    uint64_t acc = 0;
+    while (*p >= '0' && *p <= '9') acc = AddDigit(acc, *p++);
 
-    int num_dec = 0;
+    uint64_t num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+        acc = AddDigit(acc, *p++);
         num_dec++;
       }
     }
-    int exp_acc = 0;
+    uint64_t exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      while (*p >= '0' && *p <= '9') exp_acc = AddDigit(exp_acc, *p++);
     }
-    if (exp_acc < num_dec)
-      return 0;
-    else if (exp_acc > 0)
-      acc *= (unsigned int)(powf(10.f, (float)(exp_acc - num_dec)));
+    if (exp_acc < num_dec) return 0;
+    for (; exp_acc > num_dec && acc != 0 && acc <= 4294967295u; --exp_acc) {
+      acc = AddDigit(acc, '0');
+    }
+    // out of range, return 0, end == p
+    if (acc > 4294967295u) return 0;
     end = strip_line(p);
-    return acc;
+    return (unsigned int)acc;
   }
 
   // The following function is a home made strtof. The
@@ -125,14 +135,14 @@ class SOL_EXPORTS NumericParser {
     }
     if (!is_number(p)) return 0;
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    double acc = 0;
+    while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
       while (*p >= '0' && *p <= '9') p++;
@@ -147,7 +157,10 @@ class SOL_EXPORTS NumericParser {
         exp_s = -1;
         p++;
       }
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      for (; *p >= '0' && *p <= '9'; ++p) {
+        // no float has an exponent of more than two digits
+        if (exp_acc < 10000) exp_acc = exp_acc * 10 + (*p - '0');
+      }
       exp_acc *= exp_s;
     }
     exp_acc -= num_dec;
@@ -155,7 +168,7 @@ class SOL_EXPORTS NumericParser {
     if (exp_acc == 0) {
       return float(s * acc);
     } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+      return float(s * acc * pow(10., exp_acc));
     }
   }
 
-- 
2.43.0


From 932e25417d2fe9bf3289febe4f91ac487d8901c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 08/55] fix: libsvm writer prints indexes of 2^31 and above as
 unsigned

---
 src/sol/pario/svm_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..e62a7d6 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
-- 
2.43.0


From 9800ca127f1694be15c07531c47ddd9a96fea55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:21 +0000
Subject: [PATCH 09/55] fix: numeric parser keeps all significant digits of
 small values

---
 include/sol/pario/numeric_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index bd5ac6a..56df860 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -141,7 +141,8 @@ class SOL_EXPORTS NumericParser {
     int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
+      // digits beyond the precision of the accumulator do not count
+      while (*p >= '0' && *p <= '9' && acc < 1e17) {
         acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
-- 
2.43.0


From da75b2d8695fdd61f4e79b89edb7d9cd7f498b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:31 +0000
Subject: [PATCH 10/55] fix: forced dequeue checks for an element again after
 waiting

---
 include/sol/util/block_queue.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..0d8714f 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -146,14 +146,12 @@ class BlockQueue {
 
     int i = 0;
     for (i = 0; i < num; ++i) {
-      if (this->elem_num_ == 0) {
-        if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
-          this->nonfull_.notify_all();
-          this->nonempty_.wait();
-        } else {
-          break;
-        }
+      while (this->elem_num_ == 0 && force == true && i > 0 &&
+             elem_list[i - 1] != nullptr) {
+        this->nonfull_.notify_all();
+        this->nonempty_.wait();
       }
+      if (this->elem_num_ == 0) break;
       elem_list[i] = this->elems_[this->head_];
       this->head_ = (this->head_ + 1) % this->queue_size_;
       --this->elem_num_;
-- 
2.43.0


From 04ff3f0863a55fdb1967439ff8ccf194cac873e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:31 +0000
Subject: [PATCH 11/55] fix: size of a block queue is read under its lock

---
 include/sol/util/block_queue.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 0d8714f..863b33e 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -163,15 +163,20 @@ class BlockQueue {
 
  public:
   int capacity() const { return this->queue_size_; }
-  bool empty() const { return this->elem_num_ == 0; }
-  int size() const { return this->elem_num_; }
+  bool empty() const { return this->size() == 0; }
+  int size() const {
+    this->lock_.lock();
+    int num = this->elem_num_;
+    this->lock_.unlock();
+    return num;
+  }
 
  protected:
   T* elems_;
   int elem_num_;
   int head_, tail_;
   int queue_size_;
-  Mutex lock_;
+  mutable Mutex lock_;
   Monitor nonfull_;
   Monitor nonempty_;
 };
-- 
2.43.0


From 18ca7fd2549006149723e6fcfa9cd671c9926096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:14 +0000
Subject: [PATCH 12/55] fix: destroying a data iterator no longer waits for a
 batch its reader took

---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  3 +--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 863b33e..7e7385d 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  dequeue an element if there is one, never blocks
+  ///
+  /// \param elem the dequeued element
+  ///
+  /// \return true if an element was dequeued
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool found = this->elem_num_ > 0;
+    if (found) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return found;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..4780e47 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -28,8 +28,7 @@ DataIter::DataIter(int batch_size, int batch_num)
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
   // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
-- 
2.43.0


From d02571d4db51d13d1e5e12f83e35d1fd2d6d0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:33 +0000
Subject: [PATCH 13/55] fix: eccw divides by the standard deviation when it
 updates the confidence

The confidence update of exact convex CW is Sigma^-1 += alpha * phi / sqrt(u) * x^2
(u: the variance after the update, cf. beta_i in the comment above); the code
multiplied by sqrt(u), so the variance after the update was not u.
---
 src/sol/model/olm/eccw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..1858eaf 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -96,7 +96,7 @@ void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   // float beta_i = alpha_i * phi_ / (sqrtf(ui) + vi_ * alpha_i * phi_);
 
   this->eta_ = alpha_i;
-  tmp = alpha_i * phi_ * sqrtf(ui);
+  tmp = alpha_i * phi_ / sqrtf(ui);
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
     w(c) -= eta_ * g(c) * Sigmas_[c] * x;
-- 
2.43.0


From 9ad22067277e0bac6a33bfdfdcc8d559dbfa9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:33 +0000
Subject: [PATCH 14/55] fix: sop uses the learned bias while training

The sparse assignment only covers the features of the example, so the bias
weight stayed 0 until EndTrain.
---
 src/sol/model/olm/sop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..0db314b 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -56,6 +56,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // the bias is not among the features of x
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From 633f66706e4d273c05de112d260c1a30e1d281d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:33 +0000
Subject: [PATCH 15/55] fix: ada-rda uses the learned bias while training

The sparse assignment only covers the features of the example, so the bias
weight stayed 0 until EndTrain.
---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..6be84c9 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -61,7 +61,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -254,7 +254,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
-- 
2.43.0


From f2c119b80038bc68f7495eee08511b78fdf38506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:21 +0000
Subject: [PATCH 16/55] fix: stg truncates the weights of every class

The truncation time of a feature was advanced by the first class, so the
other classes were not truncated until EndTrain.
---
 src/sol/model/olm/ogd.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..4fdfc8b 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -93,21 +93,22 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // trucate weights
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
+  }
+  // truncate bias
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta());
   }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
-- 
2.43.0


From 962c581e737065b71253235ab6a9e529bfc747c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:21 +0000
Subject: [PATCH 17/55] fix: rda-l1 does not divide by zero on the first
 example

The weights were NaN for the first example, which therefore never trained the
model; rda and erda-l1 already add 1e-20.
---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..cb18e41 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -108,7 +108,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From a5343e7c87ed0cf0afedd6c2c92c26d29294a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 18/55] fix: end of training of fobos-l1 and ada-fobos-l1 with
 unseen dimensions

EndTrain threw runtime_error when the model has more dimensions (parameter dim,
or a loaded model) than the examples seen.
---
 include/sol/model/regularizer.h | 3 +++
 src/sol/model/olm/ada_fobos.cc  | 1 +
 src/sol/model/olm/ogd.cc        | 1 +
 src/sol/model/regularizer.cc    | 9 ++++++---
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..f21fa12 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -77,6 +77,9 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
+  /// \brief  make sure there is a last update time for each of the features
+  void update_dim(index_t dim);
+
  protected:
   real_t initial_t_;
   // record the last update time of each dimension
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..7f2f3a2 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -113,6 +113,7 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 }
 
 void AdaFOBOS_L1::EndTrain() {
+  l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 4fdfc8b..2f7f3e1 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -157,6 +157,7 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 }
 
 void FOBOS_L1::EndTrain() {
+  l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..8aa7235 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(index_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From 4fdd53b1272e336fd2adb1423c9713c4498bccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 19/55] fix: ada-rda-l1 truncates by the number of gradients it
 has summed

The prediction of example t is made with the t-1 gradients seen so far; the
threshold already counted example t (EndTrain, rda-l1 and erda-l1 do not).
---
 src/sol/model/olm/ada_rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6be84c9..8ae975a 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -129,7 +129,7 @@ AdaRDA_L1::AdaRDA_L1(int class_num) : AdaRDA(class_num) {
 
 label_t AdaRDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t trunc_thresh = real_t(l1_.lambda() * cur_iter_num_);
+  real_t trunc_thresh = real_t(l1_.lambda() * (cur_iter_num_ - 1));
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = -eta_ * expr::truncate(ut_[c].slice(x), trunc_thresh) / H_[c];
-- 
2.43.0


From 78adcc5dd72c2b4aaf0a6ab33475b92532e3f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 20/55] fix: fofs compares the current weights when it selects
 features

Every weight is scaled by an update, but the magnitudes the selection compares
were refreshed for the features of the example only.
---
 src/sol/model/olm/fofs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..99e2e21 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -73,9 +73,9 @@ void FOFS::Update(const pario::DataPoint& dp, const float* predict,
   if (this->B_ > 0) {
     math::Vector<real_t>& abs_w = this->abs_weights_;
     // update abosulte weights
-    abs_w = L1(w(0).slice(dp.data()));
+    abs_w = L1(w(0));
     for (int c = 1; c < this->clf_num_; ++c) {
-      abs_w += L1(w(c).slice(dp.data()));
+      abs_w += L1(w(c));
     }
 
     // update heap
-- 
2.43.0


From 9360932331392e10a4bc85b9b213f9375909d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 21/55] fix: end of training of fobos-l1 and ada-fobos-l1
 truncates the bias once

The bias is element 0 of the weights truncated first, and was then truncated
again as the bias.
---
 src/sol/model/olm/ada_fobos.cc | 6 ++++--
 src/sol/model/olm/ogd.cc       | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 7f2f3a2..5a27782 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -116,11 +116,13 @@ void AdaFOBOS_L1::EndTrain() {
   l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias =
+        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
-    // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = bias;
   }
   AdaFOBOS::EndTrain();
 }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2f7f3e1..2eb78f5 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -160,10 +160,11 @@ void FOBOS_L1::EndTrain() {
   l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias = truncate(w(c)[0], bias_eta() * l1_.lambda());
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
-    // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = bias;
   }
   OGD::EndTrain();
 }
-- 
2.43.0


From 3b0a5352df3ca7a315791ba8f47a0115cb9d7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 22/55] fix: end of training of stg truncates the bias at the
 rate of the bias

The bias was truncated at the learning rate of the weights.
---
 src/sol/model/olm/ogd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2eb78f5..2e1c45f 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -115,8 +115,11 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias = truncate(w(c)[0], l1_.lambda() * bias_eta());
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
+    w(c)[0] = bias;
   }
   OGD::EndTrain();
 }
-- 
2.43.0


From bee5abebca17bcf7bd6ff9bec7567635a1b156c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 23/55] fix: HeapSort of a heap compiles

It named members the class does not have (K, HeapAdjust).
---
 include/sol/util/heap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/util/heap.h b/include/sol/util/heap.h
index cdc7e57..43bf2dd 100644
--- a/include/sol/util/heap.h
+++ b/include/sol/util/heap.h
@@ -153,7 +153,7 @@ template <typename comparator>
 void Heap<comparator>::HeapSort() {
   this->BuildHeap();
 
-  for (int i = this->K - 1; i > 0; --i) {
+  for (index_t i = this->K_ - 1; i > 0; --i) {
     // swap top and last
     index_t top_id = this->pos2id_map_[0];
     this->pos2id_map_[0] = this->pos2id_map_[i];
@@ -161,7 +161,7 @@ void Heap<comparator>::HeapSort() {
     this->pos2id_map_[i] = top_id;
     this->id2pos_map_[top_id] = i;
 
-    this->HeapAdjust(0, i - 1);
+    this->AdjustHeap(0, i - 1);
   }
 }
 
-- 
2.43.0


From 135ffb53273fc176c5db32cfdc041a794860823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 24/55] fix: uniform hinge loss returns the loss it computed

---
 src/sol/loss/hinge_loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..2a654c6 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -137,7 +137,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
@@ -145,7 +145,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
       }
     }
   } else {
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
-- 
2.43.0


From 79f819c78a0554ec6796c1f5149378fd47c85d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:39 +0000
Subject: [PATCH 25/55] fix: uniform hinge and logistic losses with no class
 ahead of the label

---
 src/sol/loss/hinge_loss.cc    | 19 +++++++++++--------
 src/sol/loss/logistic_loss.cc | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index 2a654c6..678dab2 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -96,15 +96,15 @@ float UniformHingeLoss::loss(const pario::DataPoint& dp, float* predict,
                              label_t predict_label, int cls_num) {
   label_t label = dp.label();
   float false_predict = 0;
-  float false_num = 1e-12f;
+  float false_num = 0;
   for (int i = 0; i < cls_num; ++i) {
-    if (predict[label] <= predict[i]) {
+    if (i != label && predict[label] <= predict[i]) {
       false_predict += predict[i];
       false_num += 1;
     }
   }
-  false_num -= 1;
-  false_predict -= predict[label];
+  // no class is ahead of the label
+  if (false_num == 0) return 0;
   return (std::max)(0.0f,
                     this->margin_ - predict[label] + false_predict / false_num);
 }
@@ -114,15 +114,18 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
                                  int cls_num) {
   label_t label = dp.label();
   float false_predict = 0;
-  float false_num = 1e-12f;
+  float false_num = 0;
   for (int i = 0; i < cls_num; ++i) {
-    if (predict[label] <= predict[i]) {
+    if (i != label && predict[label] <= predict[i]) {
       false_predict += predict[i];
       false_num += 1;
     }
   }
-  false_num -= 1;
-  false_predict -= predict[label];
+  // no class is ahead of the label
+  if (false_num == 0) {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float alpha = 1.f / false_num;
   float loss = 0;
diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..79bf09a 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -98,15 +98,15 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
                                 label_t predict_label, int cls_num) {
   label_t label = dp.label();
   float false_predict = 0;
-  float false_num = 1e-12f;
+  float false_num = 0;
   for (int i = 0; i < cls_num; ++i) {
-    if (predict[label] <= predict[i]) {
+    if (i != label && predict[label] <= predict[i]) {
       false_predict += predict[i];
       false_num += 1;
     }
   }
-  false_num -= 1;
-  false_predict -= predict[label];
+  // no class is ahead of the label
+  if (false_num == 0) return 0;
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -123,15 +123,18 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
                                     int cls_num) {
   label_t label = dp.label();
   float false_predict = 0;
-  float false_num = 1e-12f;
+  float false_num = 0;
   for (int i = 0; i < cls_num; ++i) {
-    if (predict[label] <= predict[i]) {
+    if (i != label && predict[label] <= predict[i]) {
       false_predict += predict[i];
       false_num += 1;
     }
   }
-  false_num -= 1;
-  false_predict -= predict[label];
+  // no class is ahead of the label
+  if (false_num == 0) {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From 9f71b8c6f973a322422e33c20134e6f79f2d7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:56 +0000
Subject: [PATCH 26/55] fix: a saved fofs model without feature selection can
 be restored

---
 src/sol/model/olm/fofs.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 99e2e21..fbefffe 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -24,8 +24,10 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     this->lambda_ = stof(value);
     Check(this->lambda_ >= 0);
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    // zero: no feature selection
+    Check(B >= 0);
+    this->B_ = static_cast<index_t>(B);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From b29ce9e1593e86de1f795783913718db9b7e2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:56 +0000
Subject: [PATCH 27/55] fix: sol_SaveModel saves the model training has ended
 with

---
 src/sol/c_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..937d334 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -51,6 +51,7 @@ void* sol_RestoreModel(const char* model_path) {
 
 int sol_SaveModel(void* model, const char* model_path) {
   Model* m = (Model*)(model);
+  if (m->model_updated()) m->EndTrain();
   return m->Save(model_path);
 }
 
-- 
2.43.0


From f5c741f4b9912b0f8f632f72e219c5943db2086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:26 +0000
Subject: [PATCH 28/55] fix: ending training of lazily truncated learners
 leaves no truncation to be repeated

---
 include/sol/model/regularizer.h |  1 +
 src/sol/model/olm/ada_fobos.cc  | 10 ++++++++--
 src/sol/model/olm/ogd.cc        | 17 +++++++++++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index f21fa12..7ba8e7b 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -76,6 +76,7 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
     return this->last_update_time_;
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
 
   /// \brief  make sure there is a last update time for each of the features
   void update_dim(index_t dim);
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 5a27782..a7c33ce 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -106,7 +106,9 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
         expr::truncate(w(c).slice(x), (eta_ * l1_.lambda()) *
                                           (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                          (t - l1_.last_update_time()[0]) /
+                                          H_[c][0]);
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -118,12 +120,16 @@ void AdaFOBOS_L1::EndTrain() {
   for (int c = 0; c < this->clf_num_; ++c) {
     // truncate bias
     real_t bias =
-        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]) /
+                                    H_[c][0]);
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
     w(c)[0] = bias;
   }
+  // nothing is left to truncate if training continues
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2e1c45f..abdbf12 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -106,7 +106,8 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   }
   // truncate bias
   for (int c = 0; c < this->clf_num_; ++c) {
-    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta());
+    w(c)[0] = truncate(w(c)[0],
+                       (t - last_trunc_time_[0]) * l1_.lambda() * bias_eta());
   }
   last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -116,11 +117,14 @@ void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // truncate bias
-    real_t bias = truncate(w(c)[0], l1_.lambda() * bias_eta());
+    real_t bias = truncate(w(c)[0], (t - last_trunc_time_[0]) * l1_.lambda() *
+                                        bias_eta());
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
     w(c)[0] = bias;
   }
+  // nothing is left to truncate if training continues
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
@@ -153,7 +157,9 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
     w(c) = truncate(w(c).slice(x),
                     (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] =
+        truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                              (t - l1_.last_update_time()[0]));
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -164,11 +170,14 @@ void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // truncate bias
-    real_t bias = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    real_t bias = truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                        (t - l1_.last_update_time()[0]));
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     w(c)[0] = bias;
   }
+  // nothing is left to truncate if training continues
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
-- 
2.43.0


From af978b0ed6c95d335db7c2d35b5d0f43838d8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:24 +0000
Subject: [PATCH 29/55] fix: an active learning smoothness below one is saved
 with the model

---
 src/sol/model/online_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..19715bd 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -204,7 +204,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
-- 
2.43.0


From 5265dfe95b603cce304f30c1f300520ae8501cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:44 +0000
Subject: [PATCH 30/55] fix: the sparsity threshold is saved with the model

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/regularizer.cc    | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index 7ba8e7b..f68dc00 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -58,6 +58,8 @@ class SOL_EXPORTS OnlineL1Regularizer : public OnlineRegularizer {
 
   virtual void FinalizeRegularization(math::Vector<real_t> &w);
 
+  virtual void GetRegularizerInfo(Json::Value &root) const;
+
  protected:
   real_t sparse_thresh_;
 };
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 8aa7235..c1a68d3 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -41,6 +41,11 @@ int OnlineL1Regularizer::SetParameter(const std::string &name,
   return Status_OK;
 }
 
+void OnlineL1Regularizer::GetRegularizerInfo(Json::Value &root) const {
+  OnlineRegularizer::GetRegularizerInfo(root);
+  root["regularizer"]["sparse_thresh"] = this->sparse_thresh_;
+}
+
 void OnlineL1Regularizer::FinalizeRegularization(math::Vector<real_t> &w) {
   float thresh = this->sparse_thresh_;
   w.slice_op([thresh](real_t &val) {
-- 
2.43.0


From 5e844522b1d1a9ecbf5e86c3a267363c326048ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:55 +0000
Subject: [PATCH 31/55] fix: normalising an example without non-zero features
 leaves it as it is

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..4942fee 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -302,11 +302,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From 4e56b4f01f32c315df3fb3be2495768a12bfcba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:55 +0000
Subject: [PATCH 32/55] fix: a list of selected features that is empty or has
 negative numbers is refused

---
 src/sol/model/model.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 4942fee..dc6c164 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -334,7 +334,7 @@ int Model::LoadPreSelFeatures(const string& path) {
     return Status_IO_Error;
   }
 
-  index_t index = 0;
+  int index = 0;
   string line;
   vector<index_t> indexes;
   // load feature indexes
@@ -344,12 +344,16 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
+    index = stoi(line);
     if (index <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
-    indexes.push_back(index);
+    indexes.push_back(index_t(index));
+  }
+  if (indexes.empty()) {
+    cerr << "no pre-selected features in " << path << "\n";
+    return Status_Invalid_Format;
   }
 
   // find the max index
-- 
2.43.0


From 08ad7b8c581558d98d932cda1e7b27df62f0c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:55 +0000
Subject: [PATCH 33/55] fix: sol_SetModelParameter refuses numbers that are out
 of range

---
 src/sol/c_api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 937d334..0c06743 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -66,7 +66,7 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  catch (logic_error& err) {
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
-- 
2.43.0


From 39d65cc7e14357c4789ff6a7a969274d4515b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:55 +0000
Subject: [PATCH 34/55] fix: a model file without parameters is refused instead
 of read for ever

---
 src/sol/model/model.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index dc6c164..40ad2bf 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -192,13 +192,16 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
+    while (getline(in_file, line) && line != "model parameters:") {
       model_info << line;
     }
+    if (!in_file) {
+      cerr << "invalid model file: no model parameters\n";
+      ret = Status_Invalid_Format;
+    }
     Json::Value root;
     Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
+    if (ret == Status_OK && reader.parse(model_info.str(), root) == false) {
       cerr << "parse model file " << path << " failed\n";
       ret = Status_Invalid_Format;
     }
-- 
2.43.0


From a8ce89c4483cee8ea6dc1c81a8a620bc4538eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:55 +0000
Subject: [PATCH 35/55] fix: a model file with incomplete or unreadable weights
 is refused

---
 src/sol/model/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 40ad2bf..00b7ffc 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -227,6 +227,10 @@ Model* Model::Load(const string& path) {
 
   if (ret == Status_OK) {
     ret = model->SetModelParam(in_file);
+    if (ret == Status_OK && in_file.fail()) {
+      cerr << "incomplete model parameters in " << path << "\n";
+      ret = Status_Invalid_Format;
+    }
   }
   if (ret != Status_OK) {
     DeletePointer(model);
-- 
2.43.0


From 461836bf7b7248be77b87d2de19b5be997214581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 36/55] fix: a model file with settings of the wrong type or
 range is refused

---
 src/sol/model/model.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 00b7ffc..4eade5e 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -207,20 +207,20 @@ Model* Model::Load(const string& path) {
     }
 
     if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
-        ret = Status_Invalid_Format;
-      } else {
-        try {
+      try {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", 0).asInt();
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
           ret = model->SetModelInfo(root);
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
-        }
+      }
+      catch (exception& err) {
+        cerr << "set model parameter failed: " << err.what() << "\n";
+        ret = Status_Invalid_Argument;
       }
     }
   }
-- 
2.43.0


From 603418b00967a159313a116b687f35e4b5674e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 37/55] fix: online models refuse what the base model refuses
 in a model file

---
 src/sol/model/online_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 19715bd..aac47a0 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
-- 
2.43.0


From 730e1f88ed55ddf9efdee5bd207f53a8f69dd7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 38/55] fix: a negative dimension is refused

---
 src/sol/model/online_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index aac47a0..a57b32c 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -89,7 +89,9 @@ void OnlineModel::SetParameter(const std::string& name,
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int dim = stoi(value);
+    Check(dim >= 0);
+    this->update_dim(index_t(dim));
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-- 
2.43.0


From 32e99b12ea6c0f5292ad1624f378d405efc68653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:41 +0000
Subject: [PATCH 39/55] fix: the settings of a model file are parsed up to
 their end only

---
 external/json/jsoncpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/json/jsoncpp.cpp b/external/json/jsoncpp.cpp
index 5006623..5421374 100644
--- a/external/json/jsoncpp.cpp
+++ b/external/json/jsoncpp.cpp
@@ -292,7 +292,7 @@ Reader::Reader(const Features& features)
 bool Reader::parse(const std::string& document, Value& root,
                    bool collectComments) {
   JSONCPP_STRING documentCopy(document.data(),
-                              document.data() + document.capacity());
+                              document.data() + document.length());
   std::swap(documentCopy, document_);
   const char* begin = document_.c_str();
   const char* end = begin + document_.length();
-- 
2.43.0


From b031a331e62d7ea3267f7057eecbd1cc0370b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 40/55] fix: a refused loss leaves the model with the loss it
 had

---
 include/sol/model/model.h          |  6 ++++++
 include/sol/model/olm/alma2.h      |  1 +
 include/sol/model/olm/arow.h       |  1 +
 include/sol/model/olm/cw.h         |  1 +
 include/sol/model/olm/eccw.h       |  1 +
 include/sol/model/olm/perceptron.h |  3 +--
 include/sol/model/olm/sop.h        |  1 +
 src/sol/model/model.cc             | 15 +++++++++------
 src/sol/model/olm/alma2.cc         |  9 ++++++---
 src/sol/model/olm/arow.cc          | 11 ++++++-----
 src/sol/model/olm/cw.cc            |  9 ++++++---
 src/sol/model/olm/eccw.cc          |  9 ++++++---
 src/sol/model/olm/perceptron.cc    | 12 +++---------
 src/sol/model/olm/sop.cc           | 11 ++++++-----
 14 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..3352006 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -131,6 +131,12 @@ class SOL_EXPORTS Model {
   virtual int SetModelInfo(const Json::Value &root);
 
  protected:
+  /// \brief  check if a loss function can be used by the model, throw
+  /// invalid_argument if not
+  ///
+  /// \param loss loss function of the right type for the number of classes
+  virtual void CheckLoss(const loss::Loss &loss) const {}
+
   /// \brief  calibrate labels
   ///
   /// \param x data point
diff --git a/include/sol/model/olm/alma2.h b/include/sol/model/olm/alma2.h
index 94cf8a8..69e38e0 100644
--- a/include/sol/model/olm/alma2.h
+++ b/include/sol/model/olm/alma2.h
@@ -22,6 +22,7 @@ class ALMA2 : public OnlineLinearModel {
   virtual void BeginTrain();
 
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
 
diff --git a/include/sol/model/olm/arow.h b/include/sol/model/olm/arow.h
index 7b09127..77e2f17 100644
--- a/include/sol/model/olm/arow.h
+++ b/include/sol/model/olm/arow.h
@@ -21,6 +21,7 @@ class AROW : public OnlineLinearModel {
   virtual void SetParameter(const std::string& name, const std::string& value);
 
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
   virtual void update_dim(index_t dim);
diff --git a/include/sol/model/olm/cw.h b/include/sol/model/olm/cw.h
index 5b3321c..206c071 100644
--- a/include/sol/model/olm/cw.h
+++ b/include/sol/model/olm/cw.h
@@ -23,6 +23,7 @@ class CW : public OnlineLinearModel {
   virtual void BeginTrain();
 
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
   virtual void update_dim(index_t dim);
diff --git a/include/sol/model/olm/eccw.h b/include/sol/model/olm/eccw.h
index 30e8a2f..88d19a8 100644
--- a/include/sol/model/olm/eccw.h
+++ b/include/sol/model/olm/eccw.h
@@ -22,6 +22,7 @@ class ECCW : public OnlineLinearModel {
   virtual void BeginTrain();
 
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
   virtual void update_dim(index_t dim);
diff --git a/include/sol/model/olm/perceptron.h b/include/sol/model/olm/perceptron.h
index 3ba8fae..31d3e40 100644
--- a/include/sol/model/olm/perceptron.h
+++ b/include/sol/model/olm/perceptron.h
@@ -15,9 +15,8 @@ class Perceptron : public OnlineLinearModel {
  public:
   Perceptron(int class_num);
 
-  virtual void SetParameter(const std::string& name, const std::string& value);
-
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
 };  // class Perceptron
diff --git a/include/sol/model/olm/sop.h b/include/sol/model/olm/sop.h
index 2e67da9..13b083e 100644
--- a/include/sol/model/olm/sop.h
+++ b/include/sol/model/olm/sop.h
@@ -24,6 +24,7 @@ class SOP : public OnlineLinearModel {
   virtual label_t TrainPredict(const pario::DataPoint& dp, float* predicts);
 
  protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
   virtual void update_dim(index_t dim);
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 4eade5e..11e962e 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <memory>
 #include <string>
 
 #include "sol/util/util.h"
@@ -61,19 +62,21 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
-    DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
-    if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
+    std::unique_ptr<loss::Loss> loss(loss::Loss::Create(value));
+    Check(loss != nullptr);
+    if (this->clf_num_ == 1 && ((loss->type() & loss::Loss::Type::BC) == 0)) {
       throw invalid_argument(
           "onlye binary loss function can be used with binary problems");
     } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
+               ((loss->type() & loss::Loss::Type::MC) == 0)) {
       throw invalid_argument(
           "onlye multiclass loss function can be used with multiclass "
           "problems");
     }
+    this->CheckLoss(*loss);
+    // the loss in use is given up only for one that can be used
+    DeletePointer(this->loss_);
+    this->loss_ = loss.release();
     this->require_reinit_ = true;
   } else if (name == "norm") {
     int norm_val = -1;
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..735eab7 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -51,9 +51,6 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
@@ -63,6 +60,12 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void ALMA2::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void ALMA2::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   float margin = (1.f - alpha_) * B_ * square_p1_ / sqrtf(float(k_));
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..c296364 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -36,16 +36,17 @@ AROW::~AROW() { DeleteArray(this->Sigmas_); }
 void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
 
+void AROW::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void AROW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
   float beta_t = 0.f;
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..fe28775 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -46,9 +46,6 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
@@ -58,6 +55,12 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void CW::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void CW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 1858eaf..bdfdfc0 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -47,9 +47,6 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
@@ -59,6 +56,12 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void ECCW::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void ECCW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..bac7cea 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -22,15 +22,9 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
   }
 }
 
-void Perceptron::SetParameter(const std::string& name,
-                              const std::string& value) {
-  if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
-  } else {
-    OnlineLinearModel::SetParameter(name, value);
+void Perceptron::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::BOOL) == 0) {
+    throw invalid_argument("only bool-based loss functions are allowed");
   }
 }
 
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 0db314b..005c6cf 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -35,16 +35,17 @@ SOP::~SOP() { DeleteArray(this->v_); }
 void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
 
+void SOP::CheckLoss(const loss::Loss& loss) const {
+  if ((loss.type() & loss::Loss::Type::BOOL) == 0) {
+    throw invalid_argument("only bool-based loss functions are allowed");
+  }
+}
+
 void SOP::EndTrain() {
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_);
-- 
2.43.0


From 0f671b3150f04fee585d2bf2f8f9aad35ddde3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 41/55] fix: a refused parameter value leaves the parameter as
 it was

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++----
 src/sol/model/olm/ada_rda.cc   | 10 ++++++----
 src/sol/model/olm/alma2.cc     | 18 ++++++++++++------
 src/sol/model/olm/fofs.cc      | 10 ++++++----
 src/sol/model/olm/ogd.cc       | 10 ++++++----
 src/sol/model/olm/rda.cc       | 10 ++++++----
 src/sol/model/online_model.cc  | 21 +++++++++++++--------
 7 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index a7c33ce..f5d9dd8 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 8ae975a..cbf5ae1 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 735eab7..3b8c2f2 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -38,23 +38,29 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float alpha = stof(value);
+    Check(alpha > 0);
+    Check(alpha <= 1);
+    this->alpha_ = alpha;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
+    auto norm_type = this->norm_type_;
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    if (this->norm_type_ != op::OpType::kL2) {
+      this->norm_type_ = norm_type;
+      throw invalid_argument("only L2 normalization is allowed");
+    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index fbefffe..5e6e80c 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,11 +18,13 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else if (name == "B") {
     int B = stoi(value);
     // zero: no feature selection
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index abdbf12..c2ddfe5 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,8 +24,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float eta0 = stof(value);
+    Check(eta0 >= 0);
+    this->eta0_ = eta0;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -75,8 +76,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index cb18e41..972b5b1 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float sigma = stof(value);
+    Check(sigma > 0);
+    this->sigma_ = sigma;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float rou = stof(value);
+    Check(rou >= 0);
+    this->rou_ = rou;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index a57b32c..5c52eaf 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,8 +81,9 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float bias_eta = stof(value);
+    Check(bias_eta >= 0);
+    this->bias_eta0_ = bias_eta;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
@@ -95,24 +96,28 @@ void OnlineModel::SetParameter(const std::string& name,
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float active_smoothness = stof(value);
+    Check(active_smoothness > 0);
+    this->active_smoothness_ = active_smoothness;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float cost_margin = stof(value);
+    Check(cost_margin > 0);
+    this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    int base = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = new ExpIterDisplayer(base);
   } else if (name == "step_show") {
+    int step = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = new StepIterDisplayer(step);
   } else {
     Model::SetParameter(name, value);
   }
-- 
2.43.0


From 1600b4d0e32385aeda99395e870dcd7b6b6e6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 42/55] fix: a negative regularization parameter is refused

---
 src/sol/model/regularizer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c1a68d3..0e67853 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -6,6 +6,7 @@
 
 #include "sol/model/regularizer.h"
 #include "sol/util/error_code.h"
+#include "sol/util/util.h"
 
 #include <string>
 
@@ -19,7 +20,9 @@ int Regularizer::SetParameter(const std::string &name,
                               const std::string &value) {
   int ret = Status_OK;
   if (name == "lambda") {
-    this->lambda_ = stof(value);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else {
     ret = Status_Invalid_Argument;
   }
-- 
2.43.0


From df6cb419b35e52255a4446cb84c24437aecdffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 43/55] fix: the number of features to select can be changed
 between training runs

---
 src/sol/model/olm/ada_fobos.cc | 4 +++-
 src/sol/model/olm/ada_rda.cc   | 4 +++-
 src/sol/model/olm/arow.cc      | 4 +++-
 src/sol/model/olm/fofs.cc      | 3 +++
 src/sol/model/olm/ogd.cc       | 4 +++-
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index f5d9dd8..902abce 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -153,8 +153,10 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 }
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaFOBOS::SetParameter("lambda", value);
+    // the heap is built for the number of features to select
+    this->require_reinit_ = true;
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index cbf5ae1..399511d 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -170,8 +170,10 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaRDA::SetParameter("lambda", value);
+    // the heap is built for the number of features to select
+    this->require_reinit_ = true;
   } else {
     AdaRDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index c296364..4c07e6a 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -128,8 +128,10 @@ SOFS::~SOFS() {
 }
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AROW::SetParameter("lambda", value);
+    // the heap is built for the number of features to select
+    this->require_reinit_ = true;
   } else {
     AROW::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 5e6e80c..75cef2f 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -21,15 +21,18 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     float eta = stof(value);
     Check(eta >= 0);
     this->eta_ = eta;
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     float lambda = stof(value);
     Check(lambda >= 0);
     this->lambda_ = lambda;
+    this->require_reinit_ = true;
   } else if (name == "B") {
     int B = stoi(value);
     // zero: no feature selection
     Check(B >= 0);
     this->B_ = static_cast<index_t>(B);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index c2ddfe5..e8d0e81 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -191,8 +191,10 @@ PET::PET(int class_num) : OGD(class_num) { this->regularizer_ = &(this->l0_); }
 PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     OGD::SetParameter("lambda", value);
+    // the heap is built for the number of features to select
+    this->require_reinit_ = true;
   } else {
     OGD::SetParameter(name, value);
   }
-- 
2.43.0


From 289724683bf49093515a64f31edce34e21ad169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 44/55] fix: preparing stg for training again does not repeat
 its truncation

---
 include/sol/model/olm/ogd.h |  1 -
 src/sol/model/olm/ogd.cc    | 15 ++++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/sol/model/olm/ogd.h b/include/sol/model/olm/ogd.h
index e300bcd..98dd877 100644
--- a/include/sol/model/olm/ogd.h
+++ b/include/sol/model/olm/ogd.h
@@ -44,7 +44,6 @@ class STG : public OGD {
   STG(int class_num);
 
   virtual void SetParameter(const std::string& name, const std::string& value);
-  virtual void BeginTrain();
   virtual void EndTrain();
 
  protected:
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index e8d0e81..5581cc9 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -72,24 +72,25 @@ void OGD::set_power_t(float power_t) {
 
 RegisterModel(OGD, "ogd", "Online Gradient Descent");
 
-STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
+STG::STG(int class_num) : OGD(class_num), k_(1) {
+  this->regularizer_ = &l1_;
+  this->last_trunc_time_.resize(this->dim_);
+  this->last_trunc_time_ = real_t(this->initial_t_);
+}
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
     int k = stoi(value);
     Check(k > 0);
     this->k_ = k;
+  } else if (name == "t") {
+    OGD::SetParameter(name, value);
+    this->last_trunc_time_ = real_t(this->initial_t_);
   } else {
     OGD::SetParameter(name, value);
   }
 }
 
-void STG::BeginTrain() {
-  OGD::BeginTrain();
-  this->last_trunc_time_.resize(this->dim_);
-  this->last_trunc_time_ = real_t(this->initial_t_);
-}
-
 label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   size_t feat_num = x.size();
-- 
2.43.0


From d38964901687bc5bd9cd786514c4de0e7351c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:44 +0000
Subject: [PATCH 45/55] fix: zero bytes in a text file do not make the line
 buffer grow without end

---
 src/sol/pario/file_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..cbc06fc 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -106,9 +106,11 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
     }
   }
   while (strrchr(dst, '\n') == nullptr) {
+    len = int(strlen(dst));
+    // the buffer is large enough: end of file, or a zero byte in the line
+    if (len + 1 < dst_len) break;
     dst_len *= 2;
     dst = (char*)realloc(dst, dst_len);
-    len = int(strlen(dst));
     if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
   }
   return Status_OK;
-- 
2.43.0


From 97a7b860720f1b6057bac0e8e89c04f6b2f47d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 46/55] fix: splitting without a destination type uses the
 source type

---
 src/sol/c_api.cc | 3 ++-
 src/sol/tools.cc | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 0c06743..086cc90 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -190,5 +190,6 @@ int sol_shuffle_data(const char* src_path, const char* src_type,
 int sol_split_data(const char* src_path, const char* src_type, int fold,
                    const char* output_prefix, const char* dst_type,
                    bool shuffle) {
-  return split(src_path, src_type, fold, output_prefix, dst_type, shuffle);
+  return split(src_path, src_type, fold, output_prefix,
+               dst_type == NULL ? "" : dst_type, shuffle);
 }
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..cd87d21 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -221,7 +221,10 @@ int shuffle(const std::string& src_path, const std::string& src_type,
 }
 
 int split(const string& src_path, const string& src_type, int fold_num,
-          const string& output_prefix, const string& dst_type, bool shuffle) {
+          const string& output_prefix, const string& dst_type_, bool shuffle) {
+  string dst_type = dst_type_;
+  if (dst_type.length() == 0) dst_type = src_type;
+
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
   if (ret != Status_OK) return ret;
-- 
2.43.0


From f35b7b0a1501c60db69f072d72ac1e22749fc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 47/55] fix: splitting into less than one part is refused

---
 src/sol/tools.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index cd87d21..80fed39 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -224,6 +224,10 @@ int split(const string& src_path, const string& src_type, int fold_num,
           const string& output_prefix, const string& dst_type_, bool shuffle) {
   string dst_type = dst_type_;
   if (dst_type.length() == 0) dst_type = src_type;
+  if (fold_num <= 0) {
+    cerr << "number of splits must be positive\n";
+    return Status_Invalid_Argument;
+  }
 
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
-- 
2.43.0


From 9180430718ee942490b1488e9793ee95a7e448db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 48/55] fix: splitting more than 2^24 examples keeps the last
 ones

---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 80fed39..f0ec284 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -260,7 +260,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
     std::shuffle(data_list.begin(), data_list.end(), g);
   }
 
-  size_t data_split_num = size_t(ceil(data_list.size() / float(fold_num)));
+  size_t data_split_num = (data_list.size() + fold_num - 1) / fold_num;
   size_t data_idx = 0;
   size_t end_idx = data_split_num;
 
-- 
2.43.0


From 389b0d75285aacfb3173d48a260539e5f71c3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 49/55] fix: data without features has dimension zero

---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index f0ec284..5c344ac 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
-- 
2.43.0


From 48bf2b614e85d744a49a65b437e6c46c43c1a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 50/55] fix: the sparsity of data refers to its dimension

---
 src/sol/tools.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 5c344ac..548aef4 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -89,8 +89,9 @@ int analyze(const string& src_path, const string& src_type,
   fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
-  if (feat_dim > 0) {
-    fw.Printf("data sparsity: %.2lf%%\n", 100 - valid_dim * 100.0 / feat_dim);
+  if (feat_dim > 1) {
+    fw.Printf("data sparsity: %.2lf%%\n",
+              100 - valid_dim * 100.0 / (feat_dim - 1));
   }
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
-- 
2.43.0


From 5cfbdf47aaab0d1a3b3f3259c0a0a2a7d0815d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:33 +0000
Subject: [PATCH 51/55] fix: report it when a trained model could not be saved

Model::Save returned success even when writing failed, and sol_train ignored
its status altogether: both ended as if the model had been saved.
---
 src/sol/model/model.cc | 4 ++++
 tools/sol_train.cc     | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 11e962e..e4cb99c 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -176,6 +176,10 @@ int Model::Save(const string& path) const {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write file " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..14b8aaf 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -94,7 +94,8 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
+    if (ret != Status_OK) return ret;
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-- 
2.43.0


From 565bae332069f4bc1b5a6a35c91b9ca24b7a008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:03 +0000
Subject: [PATCH 52/55] fix: lsol_c shows the accuracy, not the error rate, as
 accuracy

sol_Train and sol_Test return the error rate (as the Python wrapper expects).
---
 include/sol/c_api.h | 4 ++--
 tools/lsol_c.cc     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sol/c_api.h b/include/sol/c_api.h
index d832205..32cf3b5 100644
--- a/include/sol/c_api.h
+++ b/include/sol/c_api.h
@@ -112,7 +112,7 @@ SOL_EXPORTS void sol_GetModelParameters(void* model,
 /// \param model model to be trained
 /// \param data_iter data iterator
 ///
-/// \return training accuracy
+/// \return training error rate
 SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 
 /// \brief  test a model
@@ -122,7 +122,7 @@ SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 /// \param output_path path to save the predicted results, if no need, leave it
 /// empty
 ///
-/// \return test accuracy
+/// \return test error rate
 SOL_EXPORTS float sol_Test(void* model, void* data_iter,
                            const char* output_path);
 
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..acc6a1a 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -90,8 +90,8 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
-    fprintf(stdout, "training accuracy: %.4f\n", accu);
+    float err_rate = sol_Train(model, data_iter);
+    fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
 
     // save model
     if (parser.exist("output")) {
@@ -134,8 +134,8 @@ int test(cmdline::parser& parser) {
       output_path = parser.get<string>("output").c_str();
     }
 
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From 7a843da9f3652452eede6fcddc7ecea807d11c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:03 +0000
Subject: [PATCH 53/55] fix: lsol_c does not filter the features of a model it
 could not load

---
 tools/lsol_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index acc6a1a..ff40705 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -116,7 +116,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
-- 
2.43.0


From 421dfe58123edbbe3197195bbb0338e524e1925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:27 +0000
Subject: [PATCH 54/55] fix: converting, shuffling, splitting and analyzing
 report failed writes

Write errors (such as a full disk) were ignored and success was returned:
FileWriter::Close now returns whether everything has been written.
---
 include/sol/pario/data_writer.h |  2 +-
 include/sol/pario/file_writer.h |  4 +++-
 src/sol/pario/file_writer.cc    | 10 +++++++---
 src/sol/tools.cc                |  8 +++++---
 tools/concat.cc                 |  3 ++-
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..1cb71d0 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -36,7 +36,7 @@ class SOL_EXPORTS DataWriter {
   virtual int Open(const std::string& path, const char* mode = "w");
 
   /// \brief Close the reader
-  virtual void Close() { this->file_writer_.Close(); }
+  virtual int Close() { return this->file_writer_.Close(); }
 
   /// \brief  Check the status of the data handler
   ///
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..a4dbb01 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS FileWriter {
 
   /**
    * \brief  Close the file
+   *
+   * \return  Status code, Status_OK if everything has been written
    */
-  void Close();
+  int Close();
 
   /**
    * Good : Test if the file writer is good
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..a5d3c25 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -46,11 +46,15 @@ int FileWriter::Open(const char* path, const char* mode) {
   return Status_OK;
 }
 
-void FileWriter::Close() {
-  if (this->file_ != nullptr && this->file_ != stdout) {
-    fclose(this->file_);
+int FileWriter::Close() {
+  int ret = Status_OK;
+  if (this->file_ != nullptr) {
+    if (ferror(this->file_) != 0) ret = Status_IO_Error;
+    int closed = this->file_ == stdout ? fflush(stdout) : fclose(this->file_);
+    if (closed != 0) ret = Status_IO_Error;
   }
   this->file_ = nullptr;
+  return ret;
 }
 
 bool FileWriter::Good() {
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 548aef4..66125df 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -96,6 +96,7 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
+  ret = fw.Close();
   return ret;
 }
 
@@ -164,7 +165,7 @@ int convert(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples converted\n";
-  writer->Close();
+  ret = writer->Close();
   delete writer;
   return ret;
 }
@@ -216,7 +217,7 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     writer->Write(*data);
     delete data;
   }
-  writer->Close();
+  ret = writer->Close();
   delete writer;
   return ret;
 }
@@ -286,8 +287,9 @@ int split(const string& src_path, const string& src_type, int fold_num,
       delete data_list[data_idx];
     }
     end_idx += data_split_num;
-    writer->Close();
+    ret = writer->Close();
     delete writer;
+    if (ret != Status_OK) break;
   }
   return ret;
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..ae3aca7 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -93,8 +93,9 @@ int main(int argc, char** argv) {
     }
   }
 
-  writer->Close();
+  ret = writer->Close();
   delete writer;
+  if (ret != Status_OK) return ret;
   cout << data_num << " examples concatenated to " << dst_path << "\n";
   return ret;
 }
-- 
2.43.0


From 9fff10b3cc2c53cc0e7660b05ae8ff2e3db1556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:04 +0000
Subject: [PATCH 55/55] fix: reading an element of a constant matrix takes its
 row into account

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..842ba3f 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0

