From 969477a01264c0c367b3a3ab38e2edfb91bf713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 01/41] fix: do not divide by zero when frequent values use up
 all float buckets

---
 src/data_store/column.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..e35d9a9 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -286,8 +286,9 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  // The values with their own buckets may have used up all the buckets.
+  int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 8e588d4e64a71d6d3c95bcb7955c87051c3eed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 02/41] fix: do not drop histogram buckets whose gradient or
 hessian sum is zero

---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..b90c814 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From 5082c2edf78a3fd661ccda4683d0c71a712484e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 03/41] fix: float split threshold has to separate the two
 sides of the split

---
 src/gbdt_algo/split_algo.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b90c814..78722a8 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,16 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold;
+  if (isnan(left_limit)) {
+    threshold = feature.get_bucket_min(1) - 1e-3;
+  } else {
+    threshold = (static_cast<double>(left_limit) + right_limit) / 2.0;
+    // The middle of two adjacent floats can be rounded to left_limit, which would not
+    // separate them.
+    if (!(threshold > left_limit)) threshold = right_limit;
+  }
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 24b5201e7be5eb46f678d2e1cb1c357365c19d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 04/41] fix: keep float buckets ordered by value when the data
 has infinity or max float

---
 src/data_store/column.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index e35d9a9..27b56ac 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -290,8 +290,10 @@ void BucketizedFloatColumn::BuildBuckets() {
   int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
   uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
-  sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
+  // The data can contain numeric_limits<float>::max() and infinity.
+  sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
+  bucket_maxs_.erase(unique(bucket_maxs_.begin() + 1, bucket_maxs_.end()), bucket_maxs_.end());
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From 181cc5bce00be60e0c231edb71adcb8ef1a33b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 05/41] fix: adding strings to a finalized column is an error,
 not silently lost

---
 src/data_store/column.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index 27b56ac..983b1fc 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -149,6 +149,10 @@ const string& StringColumn::get_row_string(uint i) const {
 
 void StringColumn::Add(const vector<string>* raw_strings) {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Add after finalized.");
+    return;
+  }
   for (const auto& s : *raw_strings) {
     auto it = map_to_indices_.find(s);
     if (it == map_to_indices_.end()) {
-- 
2.43.0


From 54472c02e5ea5366dd82769d4fc5a3fbf2e1ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 06/41] fix: requesting a tsv column twice left a dangling
 column

---
 src/data_store/tsv_data_store.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..3358fe8 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -144,6 +144,18 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     map_from_header_to_index[headers[i]] = i;
   }
 
+  // A column can be requested more than once, e.g. when the group column is also a feature.
+  auto already_added = [this] (const string& header, Column::ColumnType type, Status* status) {
+    auto it = column_map_.find(header);
+    if (it == column_map_.end()) return false;
+    if (it->second->type() != type) {
+      *status = Status(error::INVALID_ARGUMENT,
+                       fmt::format("Column {0} is requested with different types.", header));
+    }
+    return true;
+  };
+  Status status;
+
   // Add float features as bucketized float columns.
   for (const string& header : config.float_feature()) {
     auto it = map_from_header_to_index.find(header);
@@ -151,6 +163,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
+    if (already_added(header, Column::kBucketizedFloatColumn, &status)) {
+      if (!status.ok()) return status;
+      continue;
+    }
     column_map_[header].reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
         make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
@@ -173,6 +189,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
+    if (already_added(header, Column::kRawFloatColumn, &status)) {
+      if (!status.ok()) return status;
+      continue;
+    }
     column_map_[header].reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
         make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
@@ -190,6 +210,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    if (already_added(header, Column::kStringColumn, &status)) {
+      if (!status.ok()) return status;
+      continue;
+    }
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
@@ -203,6 +227,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    if (already_added(header, Column::kStringColumn, &status)) {
+      if (!status.ok()) return status;
+      continue;
+    }
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
-- 
2.43.0


From 4ba2e78d805b104346d18b08c15153817b35c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 07/41] fix: tsv blocks leaked when loading stops at a bad
 block

---
 src/data_store/tsv_data_store.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 3358fe8..3644aa5 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -69,11 +69,12 @@ Status TSVDataStore::LoadTSVs(const vector<string>& tsvs, const Config& config)
     return status;
   }
 
-  vector<promise<TSVBlock*>> blocks(tsvs.size());
+  vector<promise<unique_ptr<TSVBlock>>> blocks(tsvs.size());
   ThreadPool pool(FLAGS_num_threads);
   for (int i = 0; i < tsvs.size(); ++i) {
     pool.Enqueue([this, &block=blocks[i], tsv=tsvs[i], skip_header=(i==0)] {
-        block.set_value(new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header));
+        block.set_value(unique_ptr<TSVBlock>(
+            new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header)));
       });
   }
 
-- 
2.43.0


From f147c492f9de4c88f2829ca0a860cf87113bdd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 08/41] fix: concurrent loads of a flatfile column freed a
 column in use

---
 src/data_store/flatfiles_data_store.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..97c39cb 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -79,7 +79,8 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
   }
-  column_map_[column_name] = std::move(column);
+  // When another thread has loaded the column in the meantime, keep it: it is already in use.
+  column_map_.emplace(column_name, std::move(column));
 
   return true;
 }
-- 
2.43.0


From 74119c760d2ef87bba3c53ec920ab95b3591a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 09/41] fix: check the row count against an existing column
 with zero rows too

---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 97c39cb..de8236c 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,7 +74,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From e000450085bcff0f9454124a81c82dcca717f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 10/41] fix: HasPrefix and HasSuffix read past the end of
 shorter strings

---
 src/utils/utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..652dc47 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -93,11 +93,13 @@ bool StringCast(const string& s, float* v) {
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-  return std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
+  return s.size() >= prefix.size() &&
+      std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
 }
 
 bool HasSuffix(const string& s, const string& suffix) {
-  return std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
+  return s.size() >= suffix.size() &&
+      std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
 }
 
 }  // namespace strings
-- 
2.43.0


From 104044bbd7f5e1bc0014fa19208da131734f290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 11/41] fix: a number followed by a NUL byte is not a number

---
 src/utils/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 652dc47..f7fcc17 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -89,7 +89,7 @@ vector<string> split(const string& s, const string& delim) {
 bool StringCast(const string& s, float* v) {
     char* pEnd;
     *v = strtof(s.c_str(), &pEnd);
-    return *pEnd == '\0' && s.size() != 0;
+    return pEnd == s.c_str() + s.size() && s.size() != 0;
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-- 
2.43.0


From 8c66bed0a70e4b67e2312c6a755587047723b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 12/41] fix: read errors in data files are reported instead of
 looping forever

---
 src/data_store/flatfiles_data_store.cc | 12 ++++++++++--
 src/data_store/tsv_block.cc            |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index de8236c..2d58bc1 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -87,13 +87,17 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
 
 unique_ptr<Column> FlatfilesDataStore::LoadStringColumn(ifstream& in, const string& column_name) {
   vector<string> raw_strings;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
     }
     raw_strings.push_back(line);
   }
+  if (in.bad()) {
+    LOG(ERROR) << "Failed to read column " << column_name;
+    return nullptr;
+  }
 
   return Column::CreateStringColumn(column_name, raw_strings);
 }
@@ -102,7 +106,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
                                                        const string& column_name,
                                                        bool bucketized) {
   vector<float> raw_floats;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
@@ -114,6 +118,10 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
       raw_floats.push_back(NAN);
     }
   }
+  if (in.bad()) {
+    LOG(ERROR) << "Failed to read column " << column_name;
+    return nullptr;
+  }
 
   return bucketized ? Column::CreateBucketizedFloatColumn(column_name, raw_floats) :
       Column::CreateRawFloatColumn(column_name, std::move(raw_floats));
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..8d4c9fa 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (in.bad()) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to read TSV {0}.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
-- 
2.43.0


From b6f435755ca0c86eccb8e1ebb3d93110e622a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 13/41] fix: report failed writes of models and scores

---
 src/gbdt_algo/evaluation.cc | 2 +-
 src/utils/utils.cc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..f12201b 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index f7fcc17..3d11fb0 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From 4b16f98ad0e5d5b16b1cb5e5fe6496d5e4bc2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 14/41] fix: unsorted test points were skipped

---
 src/gbdt_algo/evaluation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index f12201b..64b998c 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,7 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 7de262c3fa36993e3b1faf2ea5ed035b7cee9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/41] fix: pairwise losses shared the random generator
 between threads

---
 src/loss_func/loss_func_pairwise.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..caf66fa 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -110,13 +110,20 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // The random generator is not thread safe, and the order in which threads would use it is
+  // arbitrary. Give each group its own seed.
+  vector<uint> seeds(groups_.size());
+  for (auto& seed : seeds) {
+    seed = (*Subsampling::get_generator())();
+  }
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
       pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
+          std::mt19937 generator;
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
+            generator.seed(seeds[group_index]);
             if (rerank_) group.Rerank(f);
 
             uint64 num_sample_pairs = group.num_pairs() * pair_sampling_probability_;
@@ -127,7 +134,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From d9cbe986449091ad2b226c542fb029483f9a3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 16/41] fix: pairwise losses crashed when no group has two
 different targets

---
 src/loss_func/loss_func_pairwise.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index caf66fa..84f58be 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // No pairs to sample when all targets are the same.
+  if (num_total_pairs == 0) return 0.0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
@@ -160,7 +162,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   double loss = std::accumulate(losses.begin(), losses.end(), 0.0);
   double weight_sum = std::accumulate(weight_sums.begin(), weight_sums.end(), 0.0);
 
-  loss /= weight_sum;
+  if (weight_sum != 0) loss /= weight_sum;
   if (progress) {
     *progress = PrepareProgressMessage(loss);
   }
-- 
2.43.0


From ee3a08b8065a49c5ff440965d52b34b703123cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 17/41] fix: pairwise losses wrote out of bounds for samples
 with missing group

---
 src/loss_func/loss_func_pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 84f58be..c4798e4 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -75,6 +75,8 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
+      // Samples without a group are not in any pair.
+      if (group_id == 0) continue;
       groups[group_id - 1].emplace_back(i);
     }
   }
-- 
2.43.0


From e0f123ce64af4cf794f66f812406622c83ea82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 18/41] fix: sampling rates that are not numbers passed the
 config check

---
 src/gbdt_algo/utils.cc              | 8 ++++----
 src/loss_func/loss_func_pairwise.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..7efd9c0 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index c4798e4..25ea722 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -59,7 +59,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0) || std::isinf(pair_sampling_rate_)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From 49332419fcbc56f064b4014516f72796516ff9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 19/41] fix: logloss overflowed to NaN for large negative
 margins

---
 src/loss_func/loss_func_math.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..69bf21a 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,11 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  double margin = y * f;
+  // exp of a non-positive number doesn't overflow.
+  double e = exp(-fabs(margin));
+  double p = margin >= 0 ? e / (1 + e) : 1 / (1 + e);
+  return make_tuple(max(-margin, 0.0) + log1p(e), y * p, e / ((1 + e) * (1 + e)));
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From 894f1c792552124641b8051234ea409c48c4ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 20/41] fix: lambdamart wrote its precomputed discounts out of
 bounds

---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..994f077 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -40,7 +40,7 @@ LambdaMART::LambdaMART(const Config& config)
   if (config.lambdamart_dcg_base() > 0) {
     dcg_base_ = config.lambdamart_dcg_base();
   }
-  precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
+  precomputed_discounts_.resize(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
     precomputed_discounts_[i] = discount(i, dcg_base_);
   }
-- 
2.43.0


From d25c6024478bea3d1392a808c325e5b6912faf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 21/41] fix: python swallowed errors such as adding an existing
 column

---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From bdc80311d0e3adc7e31ee0877f75c66c33eeceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 22/41] fix: python crashed on training or evaluating with an
 empty data store

---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..497820b 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,7 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From a66ad1150aa20b1e8ebae2b1010456cd7a149375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 23/41] fix: crash or hang with a non-positive number of
 threads

---
 src/flags.cc                | 4 ++++
 src/python/train_gbdt_py.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/flags.cc b/src/flags.cc
index d14455c..5338e31 100644
--- a/src/flags.cc
+++ b/src/flags.cc
@@ -25,5 +25,9 @@ DEFINE_string(testing_model_file, "", "The testing model file.");
 DEFINE_string(base_model_file, "", "The base model file.");
 DEFINE_string(config_file, "", "The config file.");
 DEFINE_int32(num_threads, 16, "The number of threads.");
+static bool IsPositive(const char* /* flag_name */, google::int32 value) {
+  return value > 0;
+}
+DEFINE_validator(num_threads, &IsPositive);
 DEFINE_string(mode, "train", "The running mode.");
 DEFINE_int32(seed, 1234567, "The random seed.");
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 497820b..b567e6d 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -46,6 +46,10 @@ ForestPy TrainPy(DataStorePy* data_store,
                  ForestPy* base_forest_py,
                  int random_seed,
                  int num_threads) {
+  if (num_threads <= 0) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("num_threads should be positive (actual {0})", num_threads)));
+  }
   FLAGS_num_threads = num_threads;
 
   Config config;
-- 
2.43.0


From b308052011dafe4f4fb3bb35fb79ae29ff295b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 24/41] fix: feature importance was NaN for forests without
 gains

---
 src/gbdt_algo/utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 7efd9c0..d03f7ff 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -100,6 +100,8 @@ vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest) {
   // Normalize feature importance map.
   if (feature_importance.size() > 0) {
     double max_importance = feature_importance[0].second;
+    // There is nothing to normalize in a forest without gains.
+    if (max_importance == 0) return feature_importance;
     for (auto& p : feature_importance) {
       p.second /= max_importance;
     }
-- 
2.43.0


From 84f73a5d823fac63aac07e19e854a79776e7fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 25/41] fix: training aborted the process when the group column
 is missing

---
 src/gbdt_algo/gbdt_algo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..e0eb9f0 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -139,6 +139,11 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
 
+  if (!config.group_column().empty() && !data_store->GetStringColumn(config.group_column())) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to find string column {0} in data_store.",
+                              config.group_column()));
+  }
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
 
-- 
2.43.0


From cfe74c7301ebb1a923ec8048199af6c380e844e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 26/41] fix: saving a model with non UTF-8 categories silently
 lost them

---
 src/utils/json_utils.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/json_utils.cc b/src/utils/json_utils.cc
index 6fa2b94..5fa342b 100644
--- a/src/utils/json_utils.cc
+++ b/src/utils/json_utils.cc
@@ -50,9 +50,16 @@ Status JsonUtils::ToJson(const Message& message, string* str) {
   google::protobuf::util::JsonOptions options;
   options.always_print_primitive_fields = true;
 
+  string binary = message.SerializeAsString();
+  // Strings that are not UTF-8 can't be parsed back and would be lost in the json.
+  unique_ptr<Message> parsed(message.New());
+  if (!parsed->ParseFromString(binary)) {
+    return Status(error::INVALID_ARGUMENT, "Failed to convert to json: strings should be UTF-8.");
+  }
+
   return BinaryToJsonString(resolver_.get(),
                             GetTypeUrl(message.GetDescriptor()),
-                            message.SerializeAsString(), str, options);
+                            binary, str, options);
 }
 
 Status JsonUtils::FromJson(const string& json, Message* message) {
-- 
2.43.0


From bab5c267ee7c47277185d14ce927d44107fc508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 27/41] fix: forests applied to columns of other types aborted
 or were evaluated wrongly

---
 src/gbdt_algo/evaluation.cc |  4 ++++
 src/gbdt_algo/gbdt_algo.cc  |  7 +++++++
 src/gbdt_algo/utils.cc      | 27 +++++++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  4 ++++
 4 files changed, 42 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 64b998c..d917a40 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -63,6 +63,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckFeatureTypes(forest, data_store);
+  if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
   ComputeTreeScores compute_tree_scores(data_store);
@@ -93,6 +95,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckFeatureTypes(forest, data_store);
+  if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
   scores->clear();
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index e0eb9f0..22c18fa 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -139,6 +139,13 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
 
+  if (base_forest) {
+    status = LoadFeatures(CollectAllFeatures(*base_forest), data_store, nullptr);
+    if (!status.ok()) return status;
+    status = CheckFeatureTypes(*base_forest, data_store);
+    if (!status.ok()) return status;
+  }
+
   if (!config.group_column().empty() && !data_store->GetStringColumn(config.group_column())) {
     return Status(error::NOT_FOUND,
                   fmt::format("Failed to find string column {0} in data_store.",
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index d03f7ff..da364b8 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -129,6 +129,33 @@ unordered_set<string> CollectAllFeatures(const Forest& forest) {
   return feature_names;
 }
 
+static Status CheckFeatureTypes(const TreeNode& node, DataStore* data_store) {
+  if (!node.has_left_child()) return Status::OK;
+  const auto& split = node.split();
+  const auto* column = data_store->GetColumn(split.feature());
+  if (!column) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to load feature {0} from data_store.", split.feature()));
+  }
+  bool matched = (split.has_float_split() && column->type() == Column::kBucketizedFloatColumn) ||
+                 (split.has_cat_split() && column->type() == Column::kStringColumn);
+  if (!matched) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Column {0} has a different type than the feature in the forest.",
+                              split.feature()));
+  }
+  auto status = CheckFeatureTypes(node.left_child(), data_store);
+  return status.ok() ? CheckFeatureTypes(node.right_child(), data_store) : status;
+}
+
+Status CheckFeatureTypes(const Forest& forest, DataStore* data_store) {
+  for (const auto& tree : forest.tree()) {
+    auto status = CheckFeatureTypes(tree, data_store);
+    if (!status.ok()) return status;
+  }
+  return Status::OK;
+}
+
 bool IsSingleNodeTree(const TreeNode& tree) {
   return !tree.has_left_child();
 }
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..d30b45b 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -40,6 +40,10 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
+// Checks that the columns in data_store have the types the splits of the forest need.
+// The columns have to be loaded.
+Status CheckFeatureTypes(const Forest& forest, DataStore* data_store);
+
 bool IsSingleNodeTree(const TreeNode& tree);
 
 list<int> GetTestPoints(const Config& config, int forest_size);
-- 
2.43.0


From dbddd768900efa7f01ffa48b5806c4eb7614cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 28/41] fix: python training ignored weight_column and
 binarize_target of the config

---
 src/python/train_gbdt_py.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index b567e6d..569e79e 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -71,6 +71,13 @@ ForestPy TrainPy(DataStorePy* data_store,
   FloatVector w_hat = [](int){ return 1.0f; };
   if (!w.empty()) {
     w_hat = ([&w](int i) { return w[i]; });
+  } else if (!config.weight_column().empty()) {
+    const auto* weights = data_store->data_store()->GetRawFloatColumn(config.weight_column());
+    if (!weights) {
+      ThrowException(Status(error::INVALID_ARGUMENT,
+                            fmt::format("Failed to load weight column {0}", config.weight_column())));
+    }
+    w_hat = [weights](int i) { return (*weights)[i]; };
   }
 
   FloatVector y_hat = [&y](int i) { return y[i]; };
@@ -87,7 +94,9 @@ ForestPy TrainPy(DataStorePy* data_store,
     const vector<float>& target_floats = targets->raw_floats();
     y_hat = [&target_floats](int i) { return target_floats[i]; };
   }
-
+  if (config.binarize_target()) {
+    y_hat = [raw_y=y_hat](int i) { return raw_y(i) > 0 ? 1 : -1; };
+  }
 
   // Initialize Loss Function.
   unique_ptr<LossFunc> loss_func = LossFuncFactory::CreateLossFunc(config);
-- 
2.43.0


From 52981413d9e7bad242fc767587e4d6a35a4184a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 29/41] fix: predict_at_checkpoints of different forests
 overwrote each other's scores

---
 gbdt/_forest.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..faf4ec5 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,20 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
+        # Each call needs its own directory, since the score files are read lazily.
+        output_dir = tempfile.mkdtemp()
 
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as f:
+                    scores = [float(line) for line in f if line.strip()]
+                yield p, scores
+        finally:
+            shutil.rmtree(output_dir)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From 88e36bc64f0eef4bf9c319a8d8511215432e0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 30/41] fix: from_df dropped numeric columns overridden as
 strings

---
 gbdt/_data_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..c095fe2 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -161,7 +161,9 @@ class DataLoader:
         for col in df.select_dtypes(include=[numpy.number]).keys():
             if col in raw_float_cols:
                 d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
+            elif col in string_cols:
+                d.add_string_col(col, [str(v) for v in df[col]])
+            else:
                 d.add_bucketized_float_col(col, list(df[col]))
 
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-- 
2.43.0


From e5e72131c80385af685bad0cf8cb8afaf5750462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 31/41] fix: python columns crashed after being removed from
 their data store

---
 src/data_store/column.h          |  2 +-
 src/data_store/data_store.cc     |  2 +-
 src/data_store/data_store.h      |  3 ++-
 src/data_store/tsv_data_store.cc |  2 +-
 src/python/column_py.h           | 15 ++++++++++++---
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..0e815e3 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -29,7 +29,7 @@
 
 namespace gbdt {
 
-class Column {
+class Column : public std::enable_shared_from_this<Column> {
  public:
   enum ColumnType {
     kStringColumn = 0,
diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 4d829f6..bd9ad88 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -72,7 +72,7 @@ uint DataStore::num_cols() const {
   return column_map_.size();
 }
 
-uint CountColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+uint CountColumn(const unordered_map<string, shared_ptr<Column>>& column_map,
                  Column::ColumnType type) {
   int count = 0;
   for (const auto& p : column_map) {
diff --git a/src/data_store/data_store.h b/src/data_store/data_store.h
index 08a6b79..0905bff 100644
--- a/src/data_store/data_store.h
+++ b/src/data_store/data_store.h
@@ -49,7 +49,8 @@ public:
   }
 
 protected:
-  unordered_map<string, unique_ptr<Column>> column_map_;
+  // The columns are shared with the python columns, which can outlive the data store.
+  unordered_map<string, shared_ptr<Column>> column_map_;
   Status status_;
 };
 
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 3644aa5..5c66d42 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -41,7 +41,7 @@ string ReadFirstLine(const string& tsv) {
   return ReadLine(in);
 }
 
-Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
+Status MaybeFindFirstNotOK(const unordered_map<string, shared_ptr<Column>>& column_map) {
   for (const auto&p : column_map) {
     if (!p.second->status().ok()) {
       return p.second->status();
diff --git a/src/python/column_py.h b/src/python/column_py.h
index 8f2f491..807cbfa 100644
--- a/src/python/column_py.h
+++ b/src/python/column_py.h
@@ -26,29 +26,36 @@ namespace gbdt {
 
 class StringColumnPy {
  public:
-  StringColumnPy(const StringColumn* column) : column_(column) {}
+  StringColumnPy(const StringColumn* column)
+      : column_(column), owner_(column->shared_from_this()) {}
   int size() const;
   const string name() const;
   const string& get(int i) const;
   const string Description() const;
  private:
   const StringColumn* column_ = nullptr;
+  // Keeps the column alive when it is removed from its data store.
+  shared_ptr<const Column> owner_;
 };
 
 class RawFloatColumnPy {
  public:
-  RawFloatColumnPy(const RawFloatColumn* column) : column_(column) {}
+  RawFloatColumnPy(const RawFloatColumn* column)
+      : column_(column), owner_(column->shared_from_this()) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   const string Description() const;
  private:
   const RawFloatColumn* column_ = nullptr;
+  // Keeps the column alive when it is removed from its data store.
+  shared_ptr<const Column> owner_;
 };
 
 class BucketizedFloatColumnPy {
  public:
-  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(column) {}
+  BucketizedFloatColumnPy(const BucketizedFloatColumn* column)
+      : column_(column), owner_(column->shared_from_this()) {}
   int size() const;
   const string name() const;
   float get(int i) const;
@@ -56,6 +63,8 @@ class BucketizedFloatColumnPy {
   const string Description() const;
  private:
   const BucketizedFloatColumn* column_ = nullptr;
+  // Keeps the column alive when it is removed from its data store.
+  shared_ptr<const Column> owner_;
 };
 
 }  // namespace gbdt
-- 
2.43.0


From f61ac302fc8ec672dfcfbc2bc117322451e27fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 32/41] fix: an inaccessible file was skipped as if it did not
 exist

---
 src/utils/utils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 3d11fb0..226334d 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -15,6 +15,7 @@
 
 #include "utils.h"
 
+#include <cerrno>
 #include <cstdlib>
 #include <ctime>
 #include <fstream>
@@ -22,6 +23,7 @@
 #include <glog/logging.h>
 #include <streambuf>
 #include <string>
+#include <sys/stat.h>
 
 string ReadFileToStringOrDie(const string& file) {
   std::ifstream t(file);
@@ -57,7 +59,9 @@ vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
 }
 
 bool FileExists(const string& file) {
-  return ifstream(file).good();
+  struct stat file_stat;
+  // A file that is there but cannot be accessed does exist.
+  return stat(file.c_str(), &file_stat) == 0 || (errno != ENOENT && errno != ENOTDIR);
 }
 
 namespace strings {
-- 
2.43.0


From d807085d3f6bda055f1da8c059bd8d7557cbd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 33/41] fix: files that could not be opened or rewound were
 taken as empty

---
 src/data_store/flatfiles_data_store.cc | 5 ++++-
 src/data_store/tsv_block.cc            | 3 +++
 src/utils/utils.cc                     | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 2d58bc1..261fddf 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -52,7 +52,10 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   // Read the first line to get the type.
   string column_type = ReadLine(in);
   // Reset the stream.
-  in.seekg(0);
+  if (!in.seekg(0)) {
+    LOG(ERROR) << "Failed to read " << flatfile;
+    return false;
+  }
 
   unique_ptr<Column> column;
   if (column_type == "# dtype=strings") {
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index 8d4c9fa..d393114 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -52,6 +52,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
   string_columns_.resize(string_column_indices.size());
 
   std::ifstream in(tsv);
+  if (!in.is_open()) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to open TSV {0}.", tsv));
+  }
   if (skip_header) {
     ReadLine(in);
   }
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 226334d..5258485 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -34,7 +34,7 @@ string ReadFileToStringOrDie(const string& file) {
                << ". Please check its existence and permission.";
   }
   str.reserve(t.tellg());
-  t.seekg(0, std::ios::beg);
+  CHECK(t.seekg(0, std::ios::beg)) << "Failed to read " << file;
 
   str.assign((std::istreambuf_iterator<char>(t)),
              std::istreambuf_iterator<char>());
-- 
2.43.0


From 851b152d2e1fb59f5cefd8bfd189ff0b0e57b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 34/41] fix: a tsv header that could not be read fully was used
 as it was

---
 src/data_store/tsv_data_store.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 5c66d42..fc267df 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -36,9 +36,13 @@ namespace gbdt {
 
 namespace {
 
-string ReadFirstLine(const string& tsv) {
+Status ReadFirstLine(const string& tsv, string* line) {
   std::ifstream in(tsv);
-  return ReadLine(in);
+  *line = ReadLine(in);
+  if (!in.is_open() || in.bad()) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to read the header of {0}.", tsv));
+  }
+  return Status::OK;
 }
 
 Status MaybeFindFirstNotOK(const unordered_map<string, shared_ptr<Column>>& column_map) {
@@ -137,7 +141,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
   if (!FileExists(first_tsv)) {
     return Status(error::NOT_FOUND, fmt::format("TSV {0} does not exit.", first_tsv));
   }
-  vector<string> headers = strings::split(ReadFirstLine(first_tsv), "\t");
+  string first_line;
+  Status status = ReadFirstLine(first_tsv, &first_line);
+  if (!status.ok()) return status;
+  vector<string> headers = strings::split(first_line, "\t");
 
   unordered_map<string, int> map_from_header_to_index;
   for (int i = 0; i < headers.size(); ++i) {
@@ -155,7 +162,6 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     }
     return true;
   };
-  Status status;
 
   // Add float features as bucketized float columns.
   for (const string& header : config.float_feature()) {
-- 
2.43.0


From 8474e535ce86ff191dabbfdd329cd59a894e60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 35/41] fix: checkpoint 1 was skipped when the list has
 non-positive entries too

---
 src/gbdt_algo/evaluation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index d917a40..fd96f8d 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,7 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  test_points.remove_if([](int test_point) { return test_point <= 0; });
   test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
-- 
2.43.0


From a068d88ab8e10fe1ab8c71bdd4f734057d5c2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 36/41] fix: diverging pairwise losses trained forests of NaN
 scores without an error

---
 src/gbdt_algo/gbdt_algo.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 22c18fa..50f75b2 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -198,6 +198,12 @@ Status TrainGBDT(DataStore* data_store,
     auto* tree = forest->add_tree();
     // Fit a tree to gradients and apply the shrinkage
     *tree = FitTreeToGradients(w, gradient_data, features, config);
+    // The constant of pairwise losses is always zero. They diverge when the gradients do.
+    if (std::isnan(tree->score()) || std::isinf(tree->score())) {
+      return Status(error::INTERNAL,
+                    "Stopped learning early because it diverges. "
+                    "Please try adding regularization to the config.");
+    }
 
     // Apply Shrinkage to the tree
     ApplyShrinkage(tree, config.shrinkage());
-- 
2.43.0


From 893355080db531dac3ad571f947955ecf6bbd693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:11 +0000
Subject: [PATCH 37/41] fix: integer columns were deleted through a base class
 without a virtual destructor

---
 src/data_store/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index 0e815e3..816bd58 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -70,6 +70,7 @@ class IntegerizedColumn : public Column {
   // An interface to access integer vector of different bits.
   class IntegerCol {
    public:
+    virtual ~IntegerCol() {}
     virtual uint operator [] (uint) const = 0;
     inline bool missing(uint i) const {
       return (*this)[i] == 0;
-- 
2.43.0


From f338d47b0ef90aef6cd6f8d2eddf5bd0a97d1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 38/41] fix: tree drawings showed feature <= threshold where
 the split is feature < threshold

---
 gbdt/_forest_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbdt/_forest_visualizer.py b/gbdt/_forest_visualizer.py
index 50d8046..039399a 100755
--- a/gbdt/_forest_visualizer.py
+++ b/gbdt/_forest_visualizer.py
@@ -30,7 +30,7 @@ class ForestVisualizer:
     def __floatSplit__(self, split):
         missingToRightChild = 'missingToRightChild' in split['floatSplit'] and split['floatSplit']['missingToRightChild']
         return '{feature} {less_than} {threshold:.3f}'.format(
-            less_than='<=*' if missingToRightChild else '*<=',
+            less_than='<*' if missingToRightChild else '*<',
             feature=split['feature'],
             threshold=split['floatSplit']['threshold'])
 
-- 
2.43.0


From e8389e9929870883c8a816c897e59a4208541a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:30 +0000
Subject: [PATCH 39/41] fix: init_logging gave glog a log name that was freed,
 so later log files got garbage names

---
 src/python/gbdt_py.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/gbdt_py.cc b/src/python/gbdt_py.cc
index d18b7f7..440b214 100644
--- a/src/python/gbdt_py.cc
+++ b/src/python/gbdt_py.cc
@@ -38,7 +38,9 @@ PYBIND11_PLUGIN(libgbdt) {
           [] (const string& log_dir, const string& log_name) {
             FLAGS_log_dir = log_dir;
             FLAGS_logbuflevel = -1;
-            google::InitGoogleLogging(log_name.c_str());
+            // glog keeps the pointer: the name has to outlive this call.
+            static const string& name = *new string(log_name);
+            google::InitGoogleLogging(name.c_str());
             LOG(INFO) << "Start logging.";
           },
           py::arg("log_dir"),
-- 
2.43.0


From 86151adfb24db2bbb030f7967b869dd3f757f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:51 +0000
Subject: [PATCH 40/41] fix: a second init_logging ended the Python interpreter

---
 src/python/gbdt_py.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/gbdt_py.cc b/src/python/gbdt_py.cc
index 440b214..65c2582 100644
--- a/src/python/gbdt_py.cc
+++ b/src/python/gbdt_py.cc
@@ -36,11 +36,15 @@ PYBIND11_PLUGIN(libgbdt) {
 
     m.def("init_logging",
           [] (const string& log_dir, const string& log_name) {
+            // glog keeps the pointer: the name has to outlive this call.
+            static const string* name = nullptr;
+            if (name) {
+              ThrowException(Status(error::FAILED_PRECONDITION, "Logging is already initialized."));
+            }
+            name = new string(log_name);
             FLAGS_log_dir = log_dir;
             FLAGS_logbuflevel = -1;
-            // glog keeps the pointer: the name has to outlive this call.
-            static const string& name = *new string(log_name);
-            google::InitGoogleLogging(name.c_str());
+            google::InitGoogleLogging(name->c_str());
             LOG(INFO) << "Start logging.";
           },
           py::arg("log_dir"),
-- 
2.43.0


From 91ec896ebc8715b8dbb11941c41a0650f5f7f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:58 +0000
Subject: [PATCH 41/41] fix: a loss function that is initialized again starts
 anew

---
 src/loss_func/loss_func_pairwise.cc  | 3 +++
 src/loss_func/loss_func_pointwise.cc | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 25ea722..1361879 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -81,6 +81,9 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     }
   }
 
+  // Init starts anew: nothing is left of a training the loss was used for before.
+  initial_loss_ = -1;
+  groups_.clear();
   groups_.reserve(groups.size());
   for (auto& group : groups) {
     groups_.emplace_back(std::move(group), y);
diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index d92b24f..5a06f2a 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -40,6 +40,8 @@ Pointwise::Pointwise(PointwiseLossFunc loss_func) : loss_func_(loss_func) {
 Status Pointwise::Init(int num_rows, FloatVector w, FloatVector y, const StringColumn* unused_group_column) {
   w_ = w;
   y_ = y;
+  // Init starts anew: nothing is left of a training the loss was used for before.
+  initial_loss_ = -1;
   weight_sum_ = 0;
   for (int i = 0; i < num_rows; ++i) {
     weight_sum_ += w(i);
-- 
2.43.0

