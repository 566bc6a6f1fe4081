From 6cbc552d34ff12423889936593840ce4df3843b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 01/21] fix: keep the shifted timeseries until deltaT has read
 it

The selection functions emptied shifted_timeseries before returning, and
deltaT then indexed the empty vector (undefined behaviour; it aborts under
a hardened standard library). Clear it when a selection starts instead;
deltaT already clears it once it is done with it.
---
 sacf/correlator/Correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 26fb9e2..42eb84c 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -81,6 +81,7 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for every data point.
      */
+    cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
@@ -103,7 +104,6 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices.push_back(idx);
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
@@ -111,6 +111,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      * returns a vector of indices corresponding to the closest time points for a shifted timeseries (shifted by k)
      * by finding the closest point for the first data point and filling in the rest by index.
      */
+    cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
         if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
             break;
@@ -131,7 +132,6 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
             cor_it->selection_indices[i] = idx + i;
         }
     }
-    cor_it->shifted_timeseries.clear();
 }
 
 void Correlator::findCorrelation(CorrelationIterator* cor_it){
-- 
2.43.0


From a25512d84a7c9e9053fcbcfe067107c944cc03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 02/21] fix: take absolute time differences with std::abs

Unqualified abs on a double resolves to ::abs(int) unless some other header
happens to pull std::abs into the global namespace, so nearest-sample
selection and delta_t were truncated to whole time units.
---
 sacf/correlator/Correlator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 42eb84c..98f5aa5 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -98,8 +98,8 @@ void Correlator::naturalSelectionFunctionIdx(CorrelationIterator* cor_it){
             if(idx < 0){ idx = 0L; } //to prevent negative 
 
             if(idx != 0){ //i.e. not the first index
-                if (abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
-                    < abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+                if (std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx - 1))
+                    < std::abs(cor_it->shifted_timeseries[i] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
             }
             cor_it->selection_indices.push_back(idx);
         }
@@ -125,8 +125,8 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
         long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
 
-        if (abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
+        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
+            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
         cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
         for (int i = 0; i <= max_idx - idx; i++) {
             cor_it->selection_indices[i] = idx + i;
@@ -163,7 +163,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
-- 
2.43.0


From d7474198d85c95ce0914a4e62e0cc1f95bd3e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 03/21] fix: accumulate the normalisation in double precision

The values were narrowed to float before subtracting the mean, so a series
with an offset large compared with its scatter was normalised wrongly (the
zero-lag correlation was not 1).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 98f5aa5..537672a 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -39,7 +39,7 @@ Correlator::Correlator(DataStructure* ds_in){
     int i = 0;
     for(int j = 0; j < N_datasets; j++){
         for(int i = 0; i < M_datapoints; i++){
-            float X = ds->rdata()->at(ds->getVectorIndex(i, j));
+            double X = ds->rdata()->at(ds->getVectorIndex(i, j));
             if(!std::isnan(X)){
                 N[j] += (X - ds->mean_data()[j]) * (X - ds->mean_data()[j]);
             }
-- 
2.43.0


From d1990c59e76ef3974347d1a1789be968b04b408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 04/21] fix: make room for every lag that is computed

Storage for the results was sized once, from the default lags. A larger
max_lag, a smaller min_lag or lag_resolution, or a run after
clearCorrelation wrote past the end of it, and correlations() after
clearCorrelation read past it. Grow it when a lag is added, and let
clearCorrelation empty it (it also leaked).
---
 sacf/correlator/Correlator.cpp | 10 ++++++++--
 sacf/include/Correlator.h      |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 537672a..7178cb2 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,8 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <algorithm>
+#include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
     // Initialize difference as infinite
@@ -233,6 +235,10 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
+    if(timestep_number < 0){ throw std::out_of_range("timestep_number must not be negative"); }
+    if(timestep_number >= num_lag_steps){ // more lags than there is room for
+        cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
+    }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
         correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
@@ -240,12 +246,12 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 }
 
 void Correlator::cleanCorrelationData(int i){
-    // clean up extra elements at end of vector not used.
+    // clean up extra elements at end of vector not used (or make room for more of them).
     correlation_data._timeseries.resize(i);
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
-        std::copy(start, start + i, copy_correlations.begin() + (j * i));
+        std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
     correlation_data._correlations = copy_correlations;
     num_lag_steps = i;
diff --git a/sacf/include/Correlator.h b/sacf/include/Correlator.h
index 410f2a1..69d101c 100644
--- a/sacf/include/Correlator.h
+++ b/sacf/include/Correlator.h
@@ -87,7 +87,7 @@ public:
     void calculateStandardCorrelation();
     void _calculateStandardCorrelation(double, int);
 
-    void clearCorrelation() {correlation_data = *new CorrelationData; };
+    void clearCorrelation() { cleanCorrelationData(0); };
 
     double fractionWeightFunction(double);
     double fractionSquaredWeightFunction(double);
-- 
2.43.0


From ae49ae7804b8e493d7510e82cbe1dd64776aee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 05/21] fix: do not size the results from the default lags

Converting the number of default lags to int overflowed, or asked for tens
of gigabytes, when two samples are very close compared with the length of
the series, even if the caller sets a coarser lag_resolution.
---
 sacf/correlator/Correlator.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 7178cb2..0b79ce5 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -51,9 +51,7 @@ Correlator::Correlator(DataStructure* ds_in){
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-    num_lag_steps = (int) std::floor((max_lag - min_lag) / lag_resolution) + 3; // 3 additional elements at min, 0, max
-    correlation_data._correlations = std::vector<double>(N_datasets * num_lag_steps);
-    correlation_data._timeseries = std::vector<double>(num_lag_steps);
+    num_lag_steps = 0; // correlation_data grows as lags are added
 };
 
 Correlator::Correlator(DataStructure *, DataStructure *) {
-- 
2.43.0


From 23c03f26f3a8d6afac2b747ba500e103146abd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 06/21] fix: refuse lag settings that can never reach max_lag

A lag_resolution of zero, one below zero, one too small to change the lag,
or an infinite max_lag kept both implementations looping for ever while
their results grew.
---
 sacf/correlator/Correlator.cpp | 3 +++
 sacf/sacf.py                   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 0b79ce5..4f75401 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -271,6 +271,9 @@ void Correlator::calculateStandardCorrelation(){
             i++;
         }
         _calculateStandardCorrelation(k, i);
+        if(!(k + lag_resolution > k) || std::isinf(max_lag)){ // max_lag would never be reached
+            throw std::invalid_argument("lag_resolution must be positive and max_lag finite");
+        }
         k += lag_resolution;
         i++;
     }
diff --git a/sacf/sacf.py b/sacf/sacf.py
index eeabe2f..8a6271d 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -77,6 +77,11 @@ class SACF:
                     is_positive = True
                     yield 0
                 yield k
+                if not k + lag_resolution > k or max_lag == float("inf"):
+                    # max_lag would never be reached
+                    raise ValueError(
+                        "lag_resolution must be positive and max_lag finite"
+                    )
                 k += lag_resolution
 
         for i, k in enumerate(
-- 
2.43.0


From 8af782b73bedad73c3a51e465cdfe7307e1363ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 07/21] fix: refuse to correlate an unordered or non-finite
 timeseries

Selection searches the times as an ordered sequence and the default
resolution is the smallest step between neighbours. Unordered times gave
an endless loop, an empty result or wrong pairs; repeated or non-finite
times were refused only because the number of lags overflowed.
---
 sacf/correlator/Correlator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 4f75401..ea5dd1f 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -48,6 +48,11 @@ Correlator::Correlator(DataStructure* ds_in){
         }
     }
     max_lag = ds->rnormalised_timeseries()->back();
+    bool valid = std::isfinite(max_lag);
+    for(int i = 1; i < M_datapoints; i++){
+        valid = valid && ds->rnormalised_timeseries()->at(i) > ds->rnormalised_timeseries()->at(i - 1);
+    }
+    if(!valid){ throw std::invalid_argument("timeseries must be finite and strictly increasing"); }
     min_lag = -max_lag;
     lag_resolution = findMinDiff(ds->rnormalised_timeseries());
     alpha = ds->median_time();
-- 
2.43.0


From f4569120058bf0f946f17b3a8c6e25d0aa603e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 08/21] fix: refuse data and errors whose lengths do not match
 the timeseries

Only the total number of values modulo the number of times was checked, so
extra values were dropped, ragged series were cut up at the wrong places or
read past the end, and the errors were not checked at all (errors() read
past the end of a short list).
---
 sacf/datastructure/DataStructure.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index fa972bf..17857e6 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -32,7 +32,8 @@ BadDataInputException BadDataEx;
 
 void DataStructure::setUp(){
     if (_data.empty() || t.empty()){ throw EmptyDSEx; }
-    if (_data.size() % t.size() != 0){ throw BadDataEx; }
+    if (_data.size() != N_datasets * t.size()){ throw BadDataEx; }
+    if (!err.empty() && err.size() != _data.size()){ throw BadDataEx; }
     setDataMean();
     settMax();
     norm_t.resize(t.size());
@@ -41,6 +42,12 @@ void DataStructure::setUp(){
     settMedian();
 }
 
+static void checkSeriesLengths(const std::vector< std::vector<double> >& series, size_t length){
+    for(auto const& s: series){
+        if (s.size() != length){ throw BadDataEx; }
+    }
+}
+
 long DataStructure::getVectorIndex(int i, int j){
     return (long) i + j * M_datapoints;
 }
@@ -54,6 +61,7 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    checkSeriesLengths(*data_in, t.size());
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector<double> >* data_in,
@@ -71,6 +79,8 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector< std::vector
     N_datasets = data_in->size();
     M_datapoints = t_in->size();
     setUp();
+    checkSeriesLengths(*data_in, t.size());
+    if (!err.empty()){ checkSeriesLengths(*data_err_in, t.size()); }
 };
 
 DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* data_in):
-- 
2.43.0


From 6ef64c7a25e2353efbac9ad120f7628ce742cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 09/21] fix: read one error per row from a file

Every number after the second one was stored as an error, and a row without
an error stored none, so the errors no longer belonged to their rows and
errors() read past the end of the list. Read only the third column, and
store NaN where it is missing.
---
 sacf/datastructure/DataStructure.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index 17857e6..efd567a 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -102,7 +102,6 @@ DataStructure::DataStructure(const std::string &filename){
      * constructor for DataStructure from file
      */
     bool has_errors = 1;
-    bool update_has_errors = 1;
     std::ifstream file(filename, std::ios::in);
     if(file.fail()){
         throw BadFileEx;
@@ -123,15 +122,17 @@ DataStructure::DataStructure(const std::string &filename){
                 }
 
                 std::stringstream linestream(line);
-                while(linestream >> t_val >> X_val){
+                if(linestream >> t_val >> X_val){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    while(linestream >> X_err_val && has_errors){
+                    if(linestream >> X_err_val && has_errors){
                         data_err_in.push_back(X_err_val);
-                        update_has_errors = 0;
                     }
-                    if(update_has_errors){
-                        has_errors = 0;
+                    else if(data_err_in.empty()){
+                        has_errors = 0; // the first row decides
+                    }
+                    else {
+                        data_err_in.push_back(NAN); // no error for this row
                     }
                 }
             }
-- 
2.43.0


From b71d93fea34513c9ed3f2b7e7e51852a514b19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 10/21] fix: make the fast selection pair samples as it
 documents

It compared the sample after the shifted first point with the one after
that, so it never chose a closer earlier sample and raised IndexError when
the shifted point fell in the last interval. Samples left over after
filling in by index were paired with the first sample instead of being
left out, and a point shifted exactly onto the last sample was dropped (so
the zero-lag correlation was not 1).
---
 sacf/correlator/Correlator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index ea5dd1f..832c4e8 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -118,7 +118,7 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
      */
     cor_it->shifted_timeseries.clear();
     for(auto const& time_point: *ds->rnormalised_timeseries()){
-        if((time_point + cor_it->k) >= ds->rnormalised_timeseries()->back()){
+        if((time_point + cor_it->k) > ds->rnormalised_timeseries()->back()){
             break;
         }
         else { cor_it->shifted_timeseries.push_back(time_point + cor_it->k); }
@@ -128,13 +128,13 @@ void Correlator::fastSelectionFunctionIdx(CorrelationIterator* cor_it){
         long idx = std::max(distance(ds->rnormalised_timeseries()->begin(),
                                 lower_bound(ds->rnormalised_timeseries()->begin(), ds->rnormalised_timeseries()->end(),
                                             (double) cor_it->shifted_timeseries[0])), 0L); // avoid negative indices
-        long max_idx = cor_it->shifted_timeseries.size() - 1; // as we have ignored ds shifted beyond time series already
-
-        if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx + 1))
-            < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx + 1; }
-        cor_it->selection_indices.resize(cor_it->shifted_timeseries.size());
-        for (int i = 0; i <= max_idx - idx; i++) {
-            cor_it->selection_indices[i] = idx + i;
+        if(idx != 0){ //i.e. not the first index
+            if (std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx - 1))
+                < std::abs(cor_it->shifted_timeseries[0] - ds->rnormalised_timeseries()->at(idx))) { idx = idx - 1; }
+        }
+        cor_it->selection_indices.clear();
+        for (int i = 0; i < cor_it->shifted_timeseries.size() && idx + i < M_datapoints; i++) {
+            cor_it->selection_indices.push_back(idx + i);
         }
     }
 }
-- 
2.43.0


From 0ce4185275116f40501a59dd0258ccd8b13cb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 11/21] fix: do not add lag 0 when min_lag is above it

Lag 0 is put in between the last negative and the first positive lag. With
a positive min_lag it was put in front of it, outside the requested range.
---
 sacf/correlator/Correlator.cpp | 2 +-
 sacf/sacf.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 832c4e8..f488be7 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -263,7 +263,7 @@ void Correlator::cleanCorrelationData(int i){
 void Correlator::calculateStandardCorrelation(){
 
     double k = min_lag;
-    bool is_positive = false;
+    bool is_positive = k > 0; // no need to add lag 0 if it is below min_lag
     int i = 0;
     while(k <= max_lag){
         if(k==0){
diff --git a/sacf/sacf.py b/sacf/sacf.py
index 8a6271d..ebd58bc 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -69,7 +69,7 @@ class SACF:
 
         def lag_generator(min_lag, max_lag, lag_resolution):
             k = min_lag
-            is_positive = False
+            is_positive = k > 0  # no need to add lag 0 if it is below min_lag
             while k <= max_lag:
                 if k == 0:
                     is_positive = True
-- 
2.43.0


From 3b24b7ea14c6482316f1a177430bd92f74b55aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 12/21] fix: return empty results when there are no lags

find_correlation raised UnboundLocalError when min_lag is above max_lag;
the C++ implementation returns empty lists.
---
 sacf/sacf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/sacf.py b/sacf/sacf.py
index ebd58bc..6abedce 100644
--- a/sacf/sacf.py
+++ b/sacf/sacf.py
@@ -84,6 +84,7 @@ class SACF:
                     )
                 k += lag_resolution
 
+        i = -1  # there may be no lags at all
         for i, k in enumerate(
             lag_generator(corr.min_lag, corr.max_lag, corr.lag_resolution)
         ):
-- 
2.43.0


From 9b160e18587c6d8603a753643b1511f15f121cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 13/21] fix: check the bounds of the correlation iterator's
 vectors

The single steps are available from Python, where an iterator made for
fewer datasets, for a fractional number of them, or taken through the steps
in another order read or wrote outside its vectors. Raise IndexError, as
the other accesses do.
---
 sacf/correlator/Correlator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index f488be7..a920b65 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -27,7 +27,7 @@ double findMinDiff(std::vector<double>* arr){
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
     correlation = std::vector<double>(vec_size);
-    for(int i = 0; i < vec_size; i++){
+    for(int i = 0; i < correlation.size(); i++){
         correlation[i] = 0;
     }
 };
@@ -143,11 +143,11 @@ void Correlator::findCorrelation(CorrelationIterator* cor_it){
     for(int j = 0; j < N_datasets; j++){
         int i = 0;
         for(auto const& weight: cor_it->weights){
-            cor_it->correlation[j] += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
-                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices[i], j)));
+            cor_it->correlation.at(j) += weight * (ds->rnormalised_data()->at(ds->getVectorIndex(i, j))) *
+                                      (ds->rnormalised_data()->at(ds->getVectorIndex(cor_it->selection_indices.at(i), j)));
             i++;
         }
-        cor_it->correlation[j] *= (1 / N[j]);
+        cor_it->correlation.at(j) *= (1 / N[j]);
     }
 }
 
@@ -168,7 +168,7 @@ void Correlator::deltaT(CorrelationIterator* cor_it){
     // returns a vector corresponding to the 'delta t' for each time point t_i + k subject to a selection index vector
     int t_i = 0;
     for(auto const& value: cor_it->selection_indices){
-        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries[t_i]));
+        cor_it->delta_t.push_back(std::abs(ds->rnormalised_timeseries()->at(value) - cor_it->shifted_timeseries.at(t_i)));
         t_i++;
     }
     cor_it->shifted_timeseries.clear();
@@ -244,7 +244,7 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
     }
     correlation_data._timeseries[timestep_number] = col_it->k;
     for(int j = 0; j < N_datasets; j++){
-        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation[j];
+        correlation_data._correlations[timestep_number + num_lag_steps * j] = col_it->correlation.at(j);
     }
 }
 
-- 
2.43.0


From 5433172385859a536f9cae537ee104761ea890d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 14/21] fix: refuse None where a correlator needs an object

Correlator(None) and its steps called with None dereferenced a null
pointer.
---
 sacf/correlator/correlator_bindings.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sacf/correlator/correlator_bindings.cpp b/sacf/correlator/correlator_bindings.cpp
index 12d2a3b..460cb7d 100644
--- a/sacf/correlator/correlator_bindings.cpp
+++ b/sacf/correlator/correlator_bindings.cpp
@@ -19,23 +19,23 @@ PYBIND11_MODULE(correlator, c) {
         ;
 
     py::class_<Correlator>(c, "Correlator")
-        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>())
-        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx)
-        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx)
-        .def("deltaT", &Correlator::deltaT)
-        .def("findCorrelation", &Correlator::findCorrelation)
+        .def(py::init<DataStructure*>(), py::keep_alive<1, 2>(), py::arg("data").none(false))
+        .def("naturalSelectionFunctionIdx", &Correlator::naturalSelectionFunctionIdx, py::arg("cor_it").none(false))
+        .def("fastSelectionFunctionIdx", &Correlator::fastSelectionFunctionIdx, py::arg("cor_it").none(false))
+        .def("deltaT", &Correlator::deltaT, py::arg("cor_it").none(false))
+        .def("findCorrelation", &Correlator::findCorrelation, py::arg("cor_it").none(false))
         .def("clearCorrelation", &Correlator::clearCorrelation)
         .def("fractionWeightFunction", &Correlator::fractionWeightFunction)
         .def("fractionSquaredWeightFunction", &Correlator::fractionSquaredWeightFunction)
         .def("gaussianWeightFunction", &Correlator::gaussianWeightFunction)
-        .def("getFractionWeights", &Correlator::getFractionWeights)
-        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights)
-        .def("getGaussianWeights", &Correlator::getGaussianWeights)
+        .def("getFractionWeights", &Correlator::getFractionWeights, py::arg("cor_it").none(false))
+        .def("getFractionSquaredWeights", &Correlator::getFractionSquaredWeights, py::arg("cor_it").none(false))
+        .def("getGaussianWeights", &Correlator::getGaussianWeights, py::arg("cor_it").none(false))
         .def("normalised_timeseries", &Correlator::normalised_timeseries)
         .def("values", &Correlator::values)
         .def("lag_timeseries", &Correlator::lag_timeseries)
         .def("correlations", &Correlator::correlations)
-        .def("addCorrelationData", &Correlator::addCorrelationData)
+        .def("addCorrelationData", &Correlator::addCorrelationData, py::arg("cor_it").none(false), py::arg("timestep_number"))
         .def("cleanCorrelationData", &Correlator::cleanCorrelationData)
         .def("calculateStandardCorrelation", &Correlator::calculateStandardCorrelation)
         .def_property("max_lag", &Correlator::getMaxLag, &Correlator::setMaxLag)
-- 
2.43.0


From 0f8355635b7029142e62abf885d9e5adf8fe8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 15/21] fix: read whole fields from a file

A field that only begins with a number (2020-01-01) counted as that number, with
the rest of it as the next one, and an empty field shifted those after it.
---
 sacf/datastructure/DataStructure.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index efd567a..c18d48a 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <numeric>
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 
 #include "DataStructure.h"
@@ -97,6 +98,15 @@ DataStructure::DataStructure(std::vector<double>* t_in, std::vector<double>* dat
     setUp();
 };
 
+static bool readNumber(std::stringstream& line, double& number){
+    // reads one field, all of which must be a number, and the separator after it
+    if(!(line >> number)){ return false; }
+    if(!line.eof() && line.peek() != ',' && !std::isspace(line.peek())){ return false; }
+    line >> std::ws;
+    if(line.peek() == ','){ line.get(); }
+    return true;
+}
+
 DataStructure::DataStructure(const std::string &filename){
     /*
      * constructor for DataStructure from file
@@ -117,15 +127,11 @@ DataStructure::DataStructure(const std::string &filename){
                 double t_val;
                 double X_err_val;
 
-                if(line.find_first_of(",") != std::string::npos){
-                    std::replace(line.begin(), line.end(), ',', ' ');  // replace commas with spaces
-                }
-
                 std::stringstream linestream(line);
-                if(linestream >> t_val >> X_val){
+                if(readNumber(linestream, t_val) && readNumber(linestream, X_val)){
                     t_in.push_back(t_val);
                     data_in.push_back(X_val);
-                    if(linestream >> X_err_val && has_errors){
+                    if(readNumber(linestream, X_err_val) && has_errors){
                         data_err_in.push_back(X_err_val);
                     }
                     else if(data_err_in.empty()){
-- 
2.43.0


From 30a5c67e72d8647d492353241aeaa40a1e21233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 16/21] fix: refuse iterator sizes and lag indices that
 overflow

---
 sacf/correlator/Correlator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index a920b65..00bc2f0 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <iostream>
 #include <cfloat>
+#include <climits>
 #include <algorithm>
 #include <stdexcept>
 
@@ -26,6 +27,7 @@ double findMinDiff(std::vector<double>* arr){
 
 CorrelationIterator::CorrelationIterator(double k_in, double vec_size){
     k = k_in;
+    if(!(vec_size >= 0 && vec_size <= INT_MAX)){ throw std::invalid_argument("vec_size out of range"); }
     correlation = std::vector<double>(vec_size);
     for(int i = 0; i < correlation.size(); i++){
         correlation[i] = 0;
@@ -238,7 +240,7 @@ double Correlator::getNDatasets(){
 }
 
 void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_number){
-    if(timestep_number < 0){ throw std::out_of_range("timestep_number must not be negative"); }
+    if(timestep_number < 0 || timestep_number >= INT_MAX / 2){ throw std::out_of_range("timestep_number out of range"); }
     if(timestep_number >= num_lag_steps){ // more lags than there is room for
         cleanCorrelationData(std::max(timestep_number + 1, 2 * num_lag_steps));
     }
-- 
2.43.0


From 9b18ea2ea46170e879ff94924cb4e6669b99b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 17/21] fix: refuse a file that cannot be read to its end

---
 sacf/datastructure/DataStructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index c18d48a..f5269a6 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -143,6 +143,7 @@ DataStructure::DataStructure(const std::string &filename){
                 }
             }
         }
+        if(file.bad()){ throw BadFileEx; } // reading stopped before the end of the file
     }
     _data = data_in;
     t = t_in;
-- 
2.43.0


From 46eb5912f3e0202b53e770d0b387edc2fd3eea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 18/21] fix: release the iterator when a lag cannot be computed

---
 sacf/correlator/Correlator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 00bc2f0..6f4216d 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -8,6 +8,7 @@
 #include <cfloat>
 #include <climits>
 #include <algorithm>
+#include <memory>
 #include <stdexcept>
 
 double findMinDiff(std::vector<double>* arr){
@@ -291,11 +292,11 @@ void Correlator::_calculateStandardCorrelation(double k, int i){
     /*
     Standard method of calculating correlations, using fractional weight function and natural selection function
     */
-    auto const& col_it = new CorrelationIterator(k, N_datasets);
+    std::unique_ptr<CorrelationIterator> const owner(new CorrelationIterator(k, N_datasets));
+    auto const col_it = owner.get();
     naturalSelectionFunctionIdx(col_it);
     deltaT(col_it);
     getFractionWeights(col_it);
     findCorrelation(col_it);
     addCorrelationData(col_it, i);
-    delete col_it;
 }
-- 
2.43.0


From 403063695aaf4eb23f698a82c80d09fc5a6a9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 19/21] fix: leave a correlator unchanged when its lags cannot
 be resized

---
 sacf/correlator/Correlator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index 6f4216d..d6af8f2 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -253,13 +253,14 @@ void Correlator::addCorrelationData(CorrelationIterator* col_it, int timestep_nu
 
 void Correlator::cleanCorrelationData(int i){
     // clean up extra elements at end of vector not used (or make room for more of them).
-    correlation_data._timeseries.resize(i);
+    correlation_data._timeseries.reserve(i); // nothing changes if there is no room
     std::vector<double> copy_correlations = std::vector<double>(N_datasets * i);
     for(int j = 0; j < N_datasets; j++){
         auto start = correlation_data._correlations.begin() + (j * num_lag_steps);
         std::copy(start, start + std::min(i, num_lag_steps), copy_correlations.begin() + (j * i));
     }
-    correlation_data._correlations = copy_correlations;
+    correlation_data._timeseries.resize(i);
+    correlation_data._correlations.swap(copy_correlations);
     num_lag_steps = i;
 }
 
-- 
2.43.0


From c8382b80c323b7f5fcd796469ae4ab0ffd2bea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 20/21] fix: gaussian weights of alphas whose square is 0 or
 infinite in floating point

exp(-d*d/(2*alpha*alpha)) is NaN for alpha below 1e-162 at distance 0 (0/0)
and for distances and alphas above 1e154 (inf/inf).
---
 sacf/correlator/Correlator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sacf/correlator/Correlator.cpp b/sacf/correlator/Correlator.cpp
index d6af8f2..b0add46 100644
--- a/sacf/correlator/Correlator.cpp
+++ b/sacf/correlator/Correlator.cpp
@@ -164,7 +164,7 @@ double Correlator::fractionSquaredWeightFunction(double delta_t){
 }
 
 double Correlator::gaussianWeightFunction(double delta_t){
-    return exp( -((delta_t) * (delta_t)) / (2 * alpha * alpha));
+    return exp( -((delta_t / alpha) * (delta_t / alpha)) / 2); // alpha * alpha may be 0 or infinite
 }
 
 void Correlator::deltaT(CorrelationIterator* cor_it){
-- 
2.43.0


From e027850d34e4e2eafe28ffa879ca29fee92330c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 21/21] fix: the time for an estimate of many datasets grew
 with the square of their number

Every value's scatter copied the means of all datasets.
---
 sacf/datastructure/DataStructure.cpp | 2 +-
 sacf/include/DataStructure.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sacf/datastructure/DataStructure.cpp b/sacf/datastructure/DataStructure.cpp
index f5269a6..7455735 100644
--- a/sacf/datastructure/DataStructure.cpp
+++ b/sacf/datastructure/DataStructure.cpp
@@ -199,7 +199,7 @@ std::vector<double> DataStructure::normalised_timeseries(){ return norm_t; };
 std::vector<double> DataStructure::normalised_data(){ return norm_data; };
 
 
-std::vector<double> DataStructure::mean_data() { return data_mean; };
+std::vector<double> const& DataStructure::mean_data() { return data_mean; };
 double DataStructure::median_time() { return t_median; };
 double DataStructure::max_time() { return t_max; };
 
diff --git a/sacf/include/DataStructure.h b/sacf/include/DataStructure.h
index 48dd71e..5b0cc2d 100644
--- a/sacf/include/DataStructure.h
+++ b/sacf/include/DataStructure.h
@@ -74,7 +74,7 @@ public:
     std::vector< std::vector<double> > err_2d();
     std::vector< std::vector<double> > normalised_data_2d();
 
-    std::vector<double> mean_data();
+    std::vector<double> const& mean_data();
     double median_time() ;
     double max_time();
 };
-- 
2.43.0

