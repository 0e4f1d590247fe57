From 20ac1a0c90f6ddfce436a97f02021ebbb578bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 01/25] fix: Initialize1DArray rejects a null init_data before
 it allocates

---
 src/utils_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..7dac3f1 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,16 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (nullptr == init_data) {
+        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
+        return false;
+    }
     data = new(nothrow) T[row];
     if (nullptr == data) {
         delete[] data;
         cout << "Bad memory allocated during 1D array initialization!" << endl;
         return false;
     }
-    if (nullptr == init_data) {
-        cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
-        return false;
-    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
-- 
2.43.0


From 1b519b02fa7cbd6abe1c18d31e762d180af4d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 02/25] fix: Initialize2DArray releases the row pointers when
 the data pool cannot be allocated

---
 src/utils_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_array.h b/src/utils_array.h
index 7dac3f1..4e71a42 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -394,6 +394,8 @@ bool Initialize2DArray(const int row, const int col, T**& data,
     pool = new(nothrow) T[row * col];
     if (nullptr == pool) {
         delete[] pool;
+        delete[] data;
+        data = nullptr;
         cout << "Bad memory allocated during initialize data pool of the 2D array!" << endl;
         return false;
     }
-- 
2.43.0


From 428bdbf8bbefef605cbe861e31431b5b1abdaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 03/25] fix: DateTime Forward and Backward move by the
 requested milliseconds

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..26b349f 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -487,17 +487,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - imilliseconds * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 1eb75e06b5a7219b46c28b4b22a6c24e21ed2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 04/25] fix: DateTime ToLocalTime and ToUTCTime release their
 time structure

---
 src/utils_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 26b349f..e6c7def 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -459,7 +459,7 @@ DateTime DateTime::ToLocalTime() {
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -480,7 +480,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From 5943a9d4c2ef2e0aad7adf051d4fc3f29f45209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/25] fix: GetPositionByCoordinate covers whole cells and
 never returns a column or row past the grid

---
 src/data_raster.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..da0deef 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3792,10 +3792,15 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    if (row >= n_rows || col >= n_cols) { // exactly on (or rounded to) the lower or right edge
+        return ROW_COL(-1, -1);
+    }
+    return ROW_COL(row, col);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 891920dccb961512cf150d9f46dd70c87663b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 06/25] fix: rasters built on a mask use the mask's valid
 positions when cells are looked up

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index da0deef..5e6fe57 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2211,7 +2211,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored at the valid positions of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2234,7 +2234,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are stored at the valid positions of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
-- 
2.43.0


From c8ccaac85e10d38b6ea39b3a431d019ef9d1dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/25] fix: constructors taking a coordinate system string
 initialise the raster itself, not a temporary

---
 src/data_raster.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5e6fe57..d428b29 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2078,10 +2078,9 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data, cols, rows, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2108,10 +2107,9 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 5989964c647d61678165e9dc062efe04cd487168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 08/25] fix: the constructor from several files initialises the
 members and reads a single file once

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d428b29..c13654b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2168,6 +2168,7 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
@@ -2175,6 +2176,7 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
     if (filenames.size() == 1) {
         ReadFromFile(filenames[0], calc_pos, mask,
                      use_mask_ext, default_value, opts);
+        return;
     }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
-- 
2.43.0


From 5c6d807e4dcf7a2bad868036b37d31c4c3787105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 09/25] fix: masking writes the default value back to the layer
 it was read from

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c13654b..da5085e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3949,7 +3949,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
+                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr + 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From a37634961db6d79878ac5174755e81524b2551f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 10/25] fix: statistics of all layers are available for an
 initialised two-dimensional raster

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index da5085e..c87f3d2 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2515,7 +2515,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
-- 
2.43.0


From 6b0f62a28d462bdd6aa1c69062501b5d1c805eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 11/25] fix: Reclassify gives the no-data value to values
 without a class

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c87f3d2..4699bd9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3752,7 +3752,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.count(curv) == 0) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From f7dfdc6fe665ceb5c9435eade8b38a6e65936f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 12/25] fix: GetSrs returns text owned by the raster instead of
 a destroyed temporary

---
 src/data_raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4699bd9..421efee 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2675,7 +2675,9 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    auto it = options_.find(HEADER_RS_SRS);
+    if (it == options_.end()) { return ""; }
+    return it->second.c_str();
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From e018f40c6c3e07907d1cb067f8fc686c3848c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 13/25] fix: rasters built on a mask honour output type,
 default value and layer count

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 421efee..5ccec73 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2226,6 +2226,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
+    UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
     UpdateStrHeader(options_, HEADER_RS_SRS, mask_->GetSrsString());
     CopyStringMap(opts, options_);
 }
@@ -2234,6 +2235,7 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
     calc_pos_ = true; // values are stored at the valid positions of the mask
     mask_ = mask;
     use_mask_ext_ = true;
@@ -2246,6 +2248,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
         return;
     }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
-- 
2.43.0


From ea005c4da36ec5166fe7e1646622f93d70d77f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 14/25] fix: raster Copy releases only owned positions and
 resets storage kind and statistics tables

---
 src/data_raster.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5ccec73..c972865 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3657,14 +3657,19 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (!is_2draster && nullptr != raster_) {
         Release1DArray(raster_);
     }
+    // positions may be shared with the mask, in which case they are not owned by this raster
     if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
+        if (store_pos_) { Release2DArray(pos_data_); }
+        pos_data_ = nullptr;
     }
     if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
+        if (store_pos_) { Release1DArray(pos_idx_); }
+        pos_idx_ = nullptr;
     }
+    store_pos_ = false;
     if (stats_calculated_) {
         ReleaseStatsMap2D();
+        InitialStatsMap(stats_, stats_2d_);
         stats_calculated_ = false;
     }
     if (!subset_.empty()) {
@@ -3679,8 +3684,8 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
-- 
2.43.0


From 7b0213548415293693ce6fd6aff590f396db5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 15/25] fix: shallow copy of SubsetPositions must not share
 data its destructor releases

---
 src/data_raster.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..319bec8 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -250,20 +250,19 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         Initialize1DArray(n_cells, global_, src->global_);
         Initialize2DArray(n_cells, 2, local_pos_, src->local_pos_);
         Initialize1DArray(n_cells, local_posidx_, src->local_posidx_);
-        if (nullptr != src->data_) {
-            Initialize1DArray(n_cells, data_, src->data_);
-        }
-        if (nullptr != src->data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
-        }
     }
     else {
         alloc_ = false;
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+    }
+    // data are always released by the destructor, hence never shared
+    if (nullptr != src->data_) {
+        Initialize1DArray(n_cells, data_, src->data_);
+    }
+    if (nullptr != src->data2d_) {
+        Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
     }
 }
 
-- 
2.43.0


From a859d3d2c1bcc7d3ed39d0d9a8b9fc98b6a9e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 16/25] fix: Set2DData of SubsetPositions reallocates its data
 when the layer count changes

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c972865..7769cb3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1113,7 +1113,10 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (lyr != n_lyrs) {
+            if (nullptr != data2d_) { Release2DArray(data2d_); } // allocated for another layer count
+            n_lyrs = lyr;
+        }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
-- 
2.43.0


From a0a0e9c539d097f58248dbbe1c8cc48a924e6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 17/25] fix: one layer set on a subset as two-dimensional data
 was not output

---
 src/data_raster.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7769cb3..d683f58 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1100,6 +1100,7 @@ public:
         if (n != n_cells) { return false; }
         if (nullptr == data) { return false; }
         if (1 != n_lyrs) { n_lyrs = 1; }
+        if (nullptr != data2d_) { Release2DArray(data2d_); } // replaced by the new data
         if (nullptr != data_) {
             for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data[i]); }
         } else {
@@ -1117,6 +1118,7 @@ public:
             if (nullptr != data2d_) { Release2DArray(data2d_); } // allocated for another layer count
             n_lyrs = lyr;
         }
+        if (nullptr != data_) { Release1DArray(data_); } // replaced by the new data
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
@@ -1147,7 +1149,7 @@ public:
             for (int vi = 0; vi < n_cells; vi++) {
                 //int j = local_pos_[vi][0] * ncols + local_pos_[vi][1];
                 int j = local_posidx_[vi];
-                if (n_lyrs > 1 && nullptr != data2d_) {
+                if (nullptr != data2d_) {
                     tmpdata[j] = static_cast<T>(data2d_[vi][ilyr]);
                 }
                 else if (n_lyrs == 1 && nullptr != data_) {
@@ -3016,7 +3018,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
-                else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
+                else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
                 else if (!out_origin && lyrs == 1 && nullptr != it->second->data_) { // raster 1D
@@ -3099,7 +3101,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
             else if (out_origin && lyrs == 1 && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
-            else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
+            else if (!out_origin && nullptr != sub->data2d_) { // raster 2D
                 data1d[j * lyrs + ilyr] = static_cast<T>(sub->data2d_[vi][ilyr]);
             }
             else if (!out_origin && lyrs == 1 && nullptr != sub->data_) { // raster 1D
-- 
2.43.0


From 4eef4df645bad75055bcb43a9e95d8bc48292f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 18/25] fix: combined subsets could not be output with the
 original values, nor those of a 2D raster of one layer

---
 src/data_raster.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d683f58..1b40c49 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2952,7 +2952,8 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
         if (!it->second->usable) { continue; }
         if (!(nullptr != it->second->data_    // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
-            || !recls.empty())) {             // or reclassification map specified
+            || !recls.empty()                 // or reclassification map specified,
+            || out_origin)) {                 // or original data requested
             return false;
         }
         if (lyrs_subset < 0) { lyrs_subset = it->second->n_lyrs; }
@@ -3018,6 +3019,12 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
                 else if (!out_origin && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
@@ -3095,7 +3102,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
             else if (out_origin && lyrs == 1 && nullptr != raster_) {
-- 
2.43.0


From b63ca1a312cf01e1e35d03beb9b601c735c6dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 19/25] fix: reclassifying a 2D raster with more classes'
 layers than its own read past its layers

---
 src/data_raster.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1b40c49..3351072 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2966,6 +2966,10 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     if (out_origin) {
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
+        if (nullptr != raster_2d_ && lyrs > n_lyrs_) { // reclassified layer by layer
+            StatusMessage("Error: Reclassification layer count exceeds raster's layer count!");
+            return false;
+        }
     } else {
         lyrs = lyrs_subset;
         if (lyrs < 0 && lyr_recls > 0) {
@@ -3067,6 +3071,10 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
     if (out_origin) {
         lyrs = n_lyrs_;
         if (lyr_recls > 0) { lyrs = lyr_recls; }
+        if (nullptr != raster_2d_ && lyrs > n_lyrs_) { // reclassified layer by layer
+            StatusMessage("Error: Reclassification layer count exceeds raster's layer count!");
+            return false;
+        }
     } else {
         lyrs = sub->n_lyrs;
     }
-- 
2.43.0


From ab07c53215970a135002451c11b8efef6498429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 20/25] fix: reading a raster file without a band crashed, and
 unreadable cells leaked the buffer

---
 src/data_raster.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3351072..8bb0dec 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -366,6 +366,11 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
         return false;
     }
     GDALRasterBand* po_band = po_dataset->GetRasterBand(1);
+    if (nullptr == po_band) {
+        StatusMessage("No raster band in file " + filename + ".");
+        GDALClose(po_dataset);
+        return false;
+    }
     int n_rows = po_band->GetYSize();
     int n_cols = po_band->GetXSize();
     int get_value_flag = false;
@@ -408,6 +413,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Byte, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uchar_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -431,6 +437,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                        n_cols, n_rows, GDT_Int8, 0, 0);
             if (result != CE_None) {
                 StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+                CPLFree(char_data);
                 GDALClose(po_dataset);
                 return false;
             }
@@ -445,6 +452,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -458,6 +466,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int16, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int16_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -471,6 +480,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -484,6 +494,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int32_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -498,6 +509,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_UInt64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(uint64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -511,6 +523,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Int64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(int64_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -525,6 +538,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float32, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(float_data);
             GDALClose(po_dataset);
             return false;
         }
@@ -538,6 +552,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
                                    n_cols, n_rows, GDT_Float64, 0, 0);
         if (result != CE_None) {
             StatusMessage("RaterIO trouble: " + string(CPLGetLastErrorMsg()));
+            CPLFree(double_data);
             GDALClose(po_dataset);
             return false;
         }
-- 
2.43.0


From 279658b3e652d36f5ebd2cc3e5f50a8f8d178e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 21/25] fix: integral GeoTIFF output took cells beyond 32- and
 64-bit ranges and refused valid ones

---
 src/data_raster.hpp | 56 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8bb0dec..4eaffc0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -37,6 +37,7 @@
 #include <set>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <typeinfo>
 #include <cassert>
 // include openmp if supported
@@ -588,6 +589,17 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Is the value within the range of an integral output data type?
+ *        The limits are compared as powers of two since the maximums of 32- and 64-bit types
+ *        are rounded up when they are converted to floating-point types.
+ */
+template <typename OUT_T, typename T>
+inline bool IsInTypeRange(const T value) {
+    return CVT_DBL(value) >= CVT_DBL((std::numeric_limits<OUT_T>::min)()) &&
+            CVT_DBL(value) < 2. * CVT_DBL((std::numeric_limits<OUT_T>::max)() / 2 + 1);
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -632,7 +644,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uchar[i] = UINT8_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT8_MAX) illegal_count += 1;
+                if (!IsInTypeRange<unsigned char>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_uchar[i] = static_cast<unsigned char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -655,7 +670,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if (!IsInTypeRange<signed char>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -674,7 +692,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint16[i] = UINT16_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT16_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vuint16_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_uint16[i] = static_cast<vuint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -693,7 +714,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vint16_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -712,7 +736,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vuint32_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -731,7 +758,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vint32_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -740,7 +770,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (!IsInTypeRange<vuint64_t>(old_nodata)) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -751,7 +781,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vuint64_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -759,7 +792,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (!IsInTypeRange<vint64_t>(old_nodata)) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
@@ -770,7 +803,10 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if (!IsInTypeRange<vint64_t>(values[i])) {
+                    illegal_count += 1;
+                    continue;
+                }
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From 347dd155d3c6b678e0de62db8d80d1070cc699a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 22/25] fix: blocks of zeros were lost (read back as no-data)
 in written GeoTIFF files

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4eaffc0..f88ecf1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -840,6 +840,8 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                                                CvtToGDALDataType(outtype), papsz_options);
     if (nullptr == po_dst_ds) { return false; }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
+    // Set before writing, otherwise blocks filled with 0 are regarded as empty and filled with NoData
+    po_dst_band->SetNoDataValue(new_nodata);
     CPLErr result = CE_None;
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
@@ -856,7 +858,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-    po_dst_band->SetNoDataValue(new_nodata);
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From e35eb86a1ba18e4dd200f02603881b5ea2b5e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 23/25] fix: output buffers leaked when a GeoTIFF file could
 not be created

---
 src/data_raster.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index f88ecf1..90f8404 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -833,12 +833,20 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         return false;
     }
     GDALDriver* po_driver = GetGDALDriverManager()->GetDriverByName("GTiff");
-    if (nullptr == po_driver) { return false; }
+    if (nullptr == po_driver) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     string dirname = GetPathFromFullName(filename);
     if (!PathExists(dirname)) { MakeDirectory(dirname); }
     GDALDataset* po_dst_ds = po_driver->Create(filename.c_str(), n_cols, n_rows, 1,
                                                CvtToGDALDataType(outtype), papsz_options);
-    if (nullptr == po_dst_ds) { return false; }
+    if (nullptr == po_dst_ds) {
+        if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
+        if (new_values != nullptr) { CPLFree(new_values); }
+        return false;
+    }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     // Set before writing, otherwise blocks filled with 0 are regarded as empty and filled with NoData
     po_dst_band->SetNoDataValue(new_nodata);
-- 
2.43.0


From d62c30c44bd77492566497406da89a64ff4c157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:18 +0000
Subject: [PATCH 24/25] fix: cells without data of multi-layer rasters were
 written to ASC files as -9999 instead of the no-data value

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 90f8404..c1dffe6 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3258,7 +3258,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
                         raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
                 }
                 raster_file << endl;
             }
-- 
2.43.0


From 73fa879af2f1888c91d7502a28bc2c2125cbb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:18 +0000
Subject: [PATCH 25/25] fix: corner and cell size were cut to six digits in ASC
 headers

---
 src/data_raster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 319bec8..ee9ce2c 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -198,6 +198,8 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
+    // 17 significant digits let a double be read back as the same number
+    raster_file << setprecision(17);
     raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
     raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
     raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-- 
2.43.0

