From cc209fb655c16ac3dca85f62e7e1e25a0b3a4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:05:38 +0000
Subject: [PATCH 01/52] fix: start the sum of TimeSeries::average at zero

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..2da351c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -166,7 +166,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 831e5e61ada7112b48926405ecac420a4794e701 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:05:38 +0000
Subject: [PATCH 02/52] fix: copy the full data and drop the cached envelope
 when assigning a TimeSeries

---
 genex/TimeSeries.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 2da351c..7ba5ba6 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,8 +76,8 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
@@ -86,12 +89,16 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
@@ -106,6 +113,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
-- 
2.43.0


From 1af3d3c754e76d7243b677b96a67a0c3bd3e5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:05:38 +0000
Subject: [PATCH 03/52] fix: do not report different ranges of one series as
 equal

---
 genex/TimeSeries.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 7ba5ba6..890f66c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -156,7 +156,9 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data
+      && this->start == other.start
+      && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
-- 
2.43.0


From 3254431d32d4e4eaca120591ba31227d9ca53c13 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 04/52] fix: forget row lengths and the normalized flag when
 clearing a dataset

---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..c895da0 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -176,6 +176,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From c2591c83fa0f9f8bd0019179ece28a6ff8933fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 05/52] fix: load rows that end before the first value as empty
 series

---
 genex/TimeSeriesSet.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index c895da0..4cfb0cb 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -69,6 +69,11 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
+
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -98,7 +103,12 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int numCols = std::distance(tokens.begin(), tokens.end());
+      // A row may end before the first column of values
+      this->lengths.push_back(std::max(numCols - startCol - hasNameCol, 0));
+      if (hasNameCol && numCols <= startCol) {
+        this->names.push_back(std::to_string(row));
+      }
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -145,7 +155,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From 9fd4f461066f6ea41a1f268e3746fcbf88c54c6b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 06/52] fix: ignore rows that are not loaded when computing the
 maximum length

---
 genex/TimeSeriesSet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 4cfb0cb..be5617b 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -40,7 +40,8 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
-std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
+std::pair<int, int> _getMaxRowsMaxColumns(
+  std::ifstream& f, const string& separators, int maxNumRow)
 {
   int lineCount = 0;
   int maxColumn = 0;
@@ -48,7 +49,8 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
   string line;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
-  for (lineCount = 0; std::getline(f, line); ++lineCount)
+  // Rows after maxNumRow are not loaded, so they must not affect the result
+  for (lineCount = 0; (maxNumRow <= 0 || lineCount < maxNumRow) && std::getline(f, line); ++lineCount)
   {
     tokenizer tokens(line, sep);
     length = std::distance(tokens.begin(), tokens.end());
@@ -80,7 +82,7 @@ void TimeSeriesSet::loadData(const string& filePath
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
-  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators);
+  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators, maxNumRow);
   if (maxNumRow <= 0) {
     maxNumRow = maxRowMaxColumn.first;
   }
-- 
2.43.0


From 7a1ceeeba6ada16c5fd574a0892df4f5a96ba832 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 07/52] fix: report read errors that occur while counting rows
 and columns

---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index be5617b..4233ab7 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -58,6 +58,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
-- 
2.43.0


From 188825a2dac4fea44dfa7d4d89ecea3e3317e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 08/52] fix: save dataset values with full precision

---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 4233ab7..cf0a012 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -173,6 +173,8 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  // Enough digits to get back the same values when the file is loaded
+  f.precision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
-- 
2.43.0


From f06a8823f6cadc9efcf31070a3bd7b6bdb046284 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 09/52] fix: report a dataset file that cannot be written
 completely

---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index cf0a012..8384ad1 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -185,6 +185,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From f030154b5094fc8d9d220a4e4056c1dc4d2511af Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:02 +0000
Subject: [PATCH 10/52] fix: reject an invalid index when asking for the length
 of a series

---
 genex/TimeSeriesSet.cpp | 9 +++++++++
 genex/TimeSeriesSet.hpp | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 8384ad1..34dd78b 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -27,6 +27,15 @@ TimeSeriesSet::~TimeSeriesSet()
   this->clearData();
 }
 
+int TimeSeriesSet::getItemLength(int index) const
+{
+  if (index < 0 || index >= this->itemCount)
+  {
+    throw GenexException("Invalid time series index");
+  }
+  return this->lengths[index];
+}
+
 string TimeSeriesSet::getTimeSeriesName(int index) const
 {
   if (index < 0 || index >= this->itemCount)
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..e9483b9 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -74,8 +74,10 @@ public:
    * @brief gets length of the specified time series in the dataset
    *
    * @return length of each time series
+   *
+   * @throw GenexException if there is no time series with this index
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const;
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From 011b1f089d897db36627426f6a7c1909f0016bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:22 +0000
Subject: [PATCH 11/52] fix: use the length of each series when preparing and
 searching with PAA

---
 genex/PAAWrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..f2167c2 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -7,6 +7,7 @@
 
 using std::vector;
 using std::min;
+using std::max;
 using std::cout;
 using std::endl;
 
@@ -49,11 +50,11 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = max(min(blockSize, dataset.getMaxLength()), 1);
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +107,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 1d0a9cabb4d85199a8ac773098d74b5919429b26 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:22 +0000
Subject: [PATCH 12/52] fix: keep the previous PAA when preparing a new one
 fails

---
 genex/GenexAPI.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..2d758ca 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 #include "IO.hpp"
 
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -218,15 +219,11 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
-  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
-  }
-  else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
-  }
+  std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
   wrapper->generatePAAMatrix(blockSize);
+  // Replace the old one only when the new one is complete
+  delete this->_paaWrappers[name];
+  this->_paaWrappers[name] = wrapper.release();
 }
 
 vector<candidate_time_series_t>
-- 
2.43.0


From 7739195bc6df70d5e7e19833c7b025a8cfcf2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:22 +0000
Subject: [PATCH 13/52] fix: discard the PAA of a dataset together with the
 dataset

---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 2d758ca..862ea63 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -63,7 +63,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -79,6 +79,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 4ba66940c3ccb281668a7861d2500875fd8b2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:45 +0000
Subject: [PATCH 14/52] fix: keep the existing groups when grouping fails

---
 genex/GroupableTimeSeriesSet.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..8aa2a35 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -27,22 +28,23 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = newGroups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = newGroups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+
+  // replace old groups only when the new ones are complete
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   return cntGroups;
 }
 
-- 
2.43.0


From 20737e41bdda0a9bd3b71c3884cfa2d6cfbe2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:45 +0000
Subject: [PATCH 15/52] fix: handle queries that no group can match

---
 genex/group/GlobalGroupSpace.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..9eb0a8a 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -145,7 +145,7 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
     generateTraverseOrder(query.getLength(), this->localLengthGroupSpace.size() - 1));
   for (auto io = 0; io < order.size(); io++) {
     int i = order[io];
-    if (this->localLengthGroupSpace[i] != nullptr) {
+    if (i < this->localLengthGroupSpace.size() && this->localLengthGroupSpace[i] != nullptr) {
       // this looks through each group of a certain length finding the best of those groups
       candidate_group_t candidate = 
         this->localLengthGroupSpace[i]->getBestGroup(
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("Cannot find any match for the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -173,7 +176,7 @@ GlobalGroupSpace::getKBestMatches(const TimeSeries& query, int k)
   for (auto io = 0; io < order.size(); io++) 
   {
     int i = order[io];
-    if (this->localLengthGroupSpace[i] != nullptr) {
+    if (i < this->localLengthGroupSpace.size() && this->localLengthGroupSpace[i] != nullptr) {
       kPrime = this->localLengthGroupSpace[i]->
           interLevelKSim(query, this->warpedDistance, bestSoFar, kPrime);
     }
-- 
2.43.0


From b7892b8ba56a52969cae20bed074ef1981c28f7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:45 +0000
Subject: [PATCH 16/52] fix: do not pad the k best matches with made-up results

---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 8aa2a35..15ad054 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -157,13 +157,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From 14b9aeb882e038ef4b00ec757dc4b355a379c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:45 +0000
Subject: [PATCH 17/52] fix: avoid dividing by zero when logging the progress
 of a small group space

---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..da16fea 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 46f4787c1ca8466e5dd1a9597904fc4169637cba Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:06:45 +0000
Subject: [PATCH 18/52] fix: initialize distance metrics safely when threads
 use them at the same time

---
 genex/distance/Distance.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..c9e4add 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -91,10 +91,7 @@ data_t warpedDistance(
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
   
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -237,11 +234,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
@@ -280,11 +273,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
-- 
2.43.0


From f780172854215e0467250b23e41a9551d662a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 19/52] fix: compute the warping path only when the caller asks
 for it

---
 genex/distance/Distance.hpp | 54 ++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index c9e4add..c62e100 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -100,6 +100,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
@@ -175,37 +178,40 @@ data_t warpedDistance(
     result = ncost[m - 1][n - 1];
   }
 
-  int i = m - 1;
-  int j = n - 1;
-  while ((i != 0) || (j != 0)) {
-    matching.push_back(coord_t {i, j});
-    if (i == 0) {
-      j--;
-    }
-    
-    else if (j == 0) {
-      i--;
-    }
-    
-    else {
-      double minNeighbor = std::min(ncost[i - 1][j - 1]
-                                    , std::min(ncost[i - 1][j]
-                                               , ncost[i][j - 1])
-                                    );
-      if (ncost[i - 1][j - 1] == minNeighbor) {
-        i--;
+  if (computeMatching)
+  {
+    int i = m - 1;
+    int j = n - 1;
+    while ((i != 0) || (j != 0)) {
+      matching.push_back(coord_t {i, j});
+      if (i == 0) {
         j--;
       }
-      else if (ncost[i - 1][j] == minNeighbor) {
+    
+      else if (j == 0) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
-        j--;
+    
+      else {
+        double minNeighbor = std::min(ncost[i - 1][j - 1]
+                                      , std::min(ncost[i - 1][j]
+                                                 , ncost[i][j - 1])
+                                      );
+        if (ncost[i - 1][j - 1] == minNeighbor) {
+          i--;
+          j--;
+        }
+        else if (ncost[i - 1][j] == minNeighbor) {
+          i--;
+        }
+        else if (ncost[i][j - 1] == minNeighbor) {
+          j--;
+        }
       }
     }
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From 0d0d829884d04eacd9959a6cdfc1d44d656fdee8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 20/52] fix: keep the warping path and the first row and column
 inside the band

---
 genex/distance/Distance.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index c62e100..067c4ab 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -108,18 +108,15 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
-  // band constraint
-  ncost[m - 1][n - 1] = INF;
+  // Cells that are never reached due to the warping band constraint stay at INF
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -127,7 +124,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0


From 85539638852ecebae193a09a053a3b41ac0e26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 21/52] fix: do not crash or loop when a warped cost is not a
 number

---
 genex/distance/Distance.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 067c4ab..6eb942c 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -146,7 +146,8 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
+      // The cell above may be outside of the band, the diagonal one never is
+      T minPrev = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : cost[i-1][j-1];
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
@@ -190,18 +191,15 @@ data_t warpedDistance(
       }
     
       else {
-        double minNeighbor = std::min(ncost[i - 1][j - 1]
-                                      , std::min(ncost[i - 1][j]
-                                                 , ncost[i][j - 1])
-                                      );
-        if (ncost[i - 1][j - 1] == minNeighbor) {
+        // Prefer the diagonal so that the path always advances, even with NaN costs
+        if (ncost[i - 1][j] < ncost[i - 1][j - 1] && ncost[i - 1][j] <= ncost[i][j - 1]) {
           i--;
+        }
+        else if (ncost[i][j - 1] < ncost[i - 1][j - 1]) {
           j--;
         }
-        else if (ncost[i - 1][j] == minNeighbor) {
+        else {
           i--;
-        }
-        else if (ncost[i][j - 1] == minNeighbor) {
           j--;
         }
       }
-- 
2.43.0


From 248fa8e4d694bb84b458c5b64771c902d48ccf51 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 22/52] fix: release the first row and column of the warping
 cost matrix

---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 6eb942c..8f76b3b 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -207,9 +207,9 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From 0b5682f46de6ba45768bc325cdbb14d18f709a26 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 23/52] fix: reject empty series in warped distances

---
 genex/distance/Distance.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 8f76b3b..1f12244 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -89,6 +89,10 @@ data_t warpedDistance(
   bool computeMatching = matching.empty(); 
   auto m = a.getLength();
   auto n = b.getLength();
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Two time series must not be empty for warped distance");
+  }
   auto r = calculateWarpingBandSize(max(m, n));
   
   static DM* metric = new DM();
-- 
2.43.0


From 681c4c0a06ab3a8f9ff171fe669ac120ff88c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 24/52] fix: reject negative warping band ratios

---
 genex/distance/Distance.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..683aa47 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -83,7 +83,11 @@ const vector<string>& getAllDistanceName()
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
-  warpingBandRatio = ratio;
+  if (!(ratio >= 0)) {
+    throw GenexException("Warping band ratio must not be negative");
+  }
+  // The band never exceeds the length of a time series
+  warpingBandRatio = min(ratio, 1.0);
 }
 
 int calculateWarpingBandSize(int length)
-- 
2.43.0


From c6c74f3cfa79539c19910589d2078685ea60a80f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 25/52] fix: report a group file that cannot be written
 completely

---
 genex/IO.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..f5230b6 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -31,10 +31,20 @@ void saveToFile(const A & obj, const std::string & fname) {
             boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
         filter_osbuf.push(ofs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_oarchive boa(filter_osbuf);
+        {
+            // start the archive on the filtering buffer
+            boost::archive::binary_oarchive boa(filter_osbuf);
+
+            boa << obj;
+        }
 
-        boa << obj;
+        // write out everything before checking if the file is complete
+        filter_osbuf.reset();
+        ofs.close();
+        if (!ofs)
+        {
+            throw GenexException("Error while writing file");
+        }
     }
     else 
     {
-- 
2.43.0


From 59a27e2d8ff6f4fa59d579b5dabeb9361387d39f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 26/52] fix: do not overwrite a group file when there are no
 groups to save

---
 genex/GenexAPI.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 862ea63..aacaadd 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -163,6 +163,10 @@ int GenexAPI::groupDataset(
 void GenexAPI::saveGroups(const string& name, const string& path)
 {
   this->_checkDatasetName(name);
+  if (!this->_loadedDatasets[name]->isGrouped())
+  {
+    throw GenexException("No group found");
+  }
   saveToFile(*(this->_loadedDatasets[name]), path);
 }
 
-- 
2.43.0


From 42fe121a389ebeb9bab0a052ed1fd6fe3e11e669 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 27/52] fix: report a text group file that cannot be written
 completely

---
 genex/GroupableTimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 15ad054..bc09b2d 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -103,6 +103,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Error while writing file");
+    }
   }
   else
   {
-- 
2.43.0


From d2b580353567d0ab6855b441cba5df4b6c684aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 28/52] fix: remember that loaded groups cover whole series
 only

---
 genex/group/GlobalGroupSpace.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..eaca3f2 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -116,6 +116,8 @@ private:
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+    // Only one length is saved when whole series are grouped
+    this->wholeSeriesOnly = minLen + 1 == maxLen;
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From f5a6b7b9ea1be8af79ab06ee59e8f8e963b22e80 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 29/52] fix: keep the existing groups when loading a group file
 fails

---
 genex/GroupableTimeSeriesSet.hpp      | 7 +++++--
 genex/group/GlobalGroupSpace.hpp      | 2 +-
 genex/group/LocalLengthGroupSpace.hpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..c856553 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -115,9 +116,11 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
+    // replace old groups only when the new ones are complete
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index eaca3f2..6e9c935 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -121,8 +121,8 @@ private:
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..384d716 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -109,8 +109,8 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
   }
 
-- 
2.43.0


From 856aee5df7713ea0b2dc808ba49fc376cc922a6a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:45 +0000
Subject: [PATCH 30/52] fix: reject groups whose members are not in the dataset

---
 genex/group/GlobalGroupSpace.hpp | 3 +++
 genex/group/Group.hpp            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6e9c935..681e4c5 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -114,6 +114,9 @@ private:
   {
     size_t maxLen, minLen;
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
+    if (maxLen != (size_t)dataset.getMaxLength() + 1) {
+      throw GenexException("Incompatible range of lengths");
+    }
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     // Only one length is saved when whole series are grouped
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..2f98c5d 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -202,6 +202,8 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
+      // Throw if the dataset does not have this member
+      this->dataset.getTimeSeries(index, start, start + this->memberLength);
       this->addMember(index, start);
     }
   }
-- 
2.43.0


From ddad7a6c9d438218e7383300ce1b605eda43fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:07:46 +0000
Subject: [PATCH 31/52] fix: verify the checksum of a group file before loading
 it

---
 genex/IO.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index f5230b6..c6883fe 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -4,7 +4,9 @@
 #include <boost/archive/binary_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
+#include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/device/file.hpp>
+#include <boost/iostreams/device/null.hpp>
 #include <boost/iostreams/filter/zlib.hpp>
 #include <boost/iostreams/filtering_streambuf.hpp>
 #include <iostream>
@@ -57,6 +59,14 @@ void loadFromFile(A & obj, const std::string & fname) {
     std::ifstream ifs(fname, std::ios::binary);
     if (ifs)
     {
+        // decompress the whole file once to verify its checksum before obj is changed
+        boost::iostreams::filtering_istreambuf check_isbuf;
+        check_isbuf.push(boost::iostreams::zlib_decompressor());
+        check_isbuf.push(ifs);
+        boost::iostreams::copy(check_isbuf, boost::iostreams::null_sink());
+        ifs.clear();
+        ifs.seekg(0);
+
         boost::iostreams::filtering_istreambuf filter_isbuf;
 
         // push the ifstream and the decompressor
-- 
2.43.0


From 378f22cb12e719557998ac8e6d3ccc7a37a42d0b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:08:43 +0000
Subject: [PATCH 32/52] fix: restore the threshold and reject incompatible or
 incomplete text group files

---
 genex/GroupableTimeSeriesSet.cpp      | 19 ++++++++++++-------
 genex/group/GlobalGroupSpace.cpp      | 10 ++++++++--
 genex/group/GlobalGroupSpace.hpp      |  2 +-
 genex/group/Group.cpp                 | 10 ++++++++--
 genex/group/LocalLengthGroupSpace.cpp |  6 ++++--
 5 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index bc09b2d..4d46e4d 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -123,7 +123,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw GenexException("Cannot read the header of the group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw GenexException("Incompatible file version");
@@ -132,14 +135,16 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
+    // replace old groups only when the new ones are complete
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 9eb0a8a..a36159f 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,7 +231,7 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
@@ -240,12 +240,18 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
   fin >> lenFrom >> lenTo >> distance;
   boost::trim_right(distance);
   this->_loadDistance(distance);
+  this->threshold = threshold;
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+  if (lenFrom < 0 || lenTo != this->localLengthGroupSpace.size()) {
+    throw GenexException("Incompatible range of lengths");
+  }
+  // Only one length is saved when whole series are grouped
+  this->wholeSeriesOnly = lenFrom + 1 == lenTo;
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 681e4c5..55bdaae 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..16054a9 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -163,10 +163,16 @@ void Group::loadGroupOld(ifstream &fin)
     fin >> this->centroid[i];
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt)) {
+    throw GenexException("Cannot read the centroid of a group");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start)) {
+      throw GenexException("Cannot read the members of a group");
+    }
+    // Throw if the dataset does not have this member
+    this->dataset.getTimeSeries(index, start, start + this->memberLength);
     this->addMember(index, start);
   }
 }
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index da16fea..477202b 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -146,7 +146,9 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups)) {
+    throw GenexException("Cannot read the number of groups");
+  }
   for (auto i = 0; i < numberOfGroups; i++)
   {
     auto grp = new Group(i
@@ -154,8 +156,8 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
   }
   return numberOfGroups;
 }
-- 
2.43.0


From e1d7cea6f672fda22ffe15158cfa1b0bdbb448a1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:08:43 +0000
Subject: [PATCH 33/52] fix: locate centroids in the dataset when loading a
 text group file

---
 genex/group/Group.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 16054a9..a5154f2 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -172,7 +172,11 @@ void Group::loadGroupOld(ifstream &fin)
       throw GenexException("Cannot read the members of a group");
     }
     // Throw if the dataset does not have this member
-    this->dataset.getTimeSeries(index, start, start + this->memberLength);
+    auto member = this->dataset.getTimeSeries(index, start, start + this->memberLength);
+    if (member == this->centroid) {
+      // Binary group files identify a centroid by its position in the dataset
+      this->setCentroid(index, start);
+    }
     this->addMember(index, start);
   }
 }
-- 
2.43.0


From 4b68b027870cc58c5f7372793fc9fc91660d6fda Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:08:43 +0000
Subject: [PATCH 34/52] fix: update the PAA of a dataset when it is normalized

---
 genex/GenexAPI.cpp   | 9 ++++++++-
 genex/PAAWrapper.hpp | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index aacaadd..7d68fc3 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -149,7 +149,14 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto minAndMax = this->_loadedDatasets[name]->normalize();
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
+  {
+    // PAA is a copy of the data, so it has to be computed again
+    auto wrapper = this->_paaWrappers[name];
+    wrapper->generatePAAMatrix(wrapper->getBlockSize());
+  }
+  return minAndMax;
 }
 
 int GenexAPI::groupDataset(
diff --git a/genex/PAAWrapper.hpp b/genex/PAAWrapper.hpp
index 8d53a63..dab1f20 100644
--- a/genex/PAAWrapper.hpp
+++ b/genex/PAAWrapper.hpp
@@ -28,6 +28,11 @@ public:
    */
   void generatePAAMatrix(int blockSize);
 
+  /**
+   * @brief Get the size of a block in the generated matrix
+   */
+  int getBlockSize() const { return this->blockSize; }
+
   /**
    * @brief Get the PAA version of a time series in the associated dataset
    * 
-- 
2.43.0


From 71c636fd5e93e2ee41a2749c39879b935cae82bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:09:05 +0000
Subject: [PATCH 35/52] fix: recompute centroid envelopes after a grouped
 dataset is normalized

---
 genex/GroupableTimeSeriesSet.cpp      | 11 +++++++++++
 genex/GroupableTimeSeriesSet.hpp      |  5 +++++
 genex/TimeSeries.hpp                  |  5 +++++
 genex/group/GlobalGroupSpace.cpp      |  9 +++++++++
 genex/group/GlobalGroupSpace.hpp      |  5 +++++
 genex/group/Group.hpp                 |  5 +++++
 genex/group/LocalLengthGroupSpace.cpp |  7 +++++++
 genex/group/LocalLengthGroupSpace.hpp |  5 +++++
 8 files changed, 52 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 4d46e4d..38cd1a7 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -48,6 +48,17 @@ int GroupableTimeSeriesSet::groupAllLengths(
   return cntGroups;
 }
 
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  auto minAndMax = TimeSeriesSet::normalize();
+  if (this->isGrouped())
+  {
+    // envelopes of the centroids were computed from the old values
+    this->groupsAllLengthSet->clearCentroidCache();
+  }
+  return minAndMax;
+}
+
 bool GroupableTimeSeriesSet::isGrouped() const
 {
   return this->groupsAllLengthSet != nullptr;
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index c856553..f426e2d 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -41,6 +41,11 @@ public:
                       int numThreads,
                       bool wholeSeriesOnly);
   
+  /**
+   *  @brief normalizes the dataset, keeping its groups usable
+   */
+  std::pair<data_t, data_t> normalize();
+
   /**
    *  @brief deletes and clears the groups
    */
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..5e85a95 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -152,6 +152,11 @@ public:
   const data_t* getKeoghLower(int warpingBand) const;
   const data_t* getKeoghUpper(int warpingBand) const;
 
+  /**
+   *  @brief makes the envelopes be computed again, needed when the external data changes
+   */
+  void clearKeoghCache() const { this->keoghCacheValid = false; }
+
   const data_t* getData() const;
   std::string getIdentifierString() const;
 
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index a36159f..bf165ad 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -117,6 +117,15 @@ int GlobalGroupSpace::groupMultiThreaded(
   return this->totalNumberOfGroups;
 }
 
+void GlobalGroupSpace::clearCentroidCache() const
+{
+  for (auto i = 0; i < this->localLengthGroupSpace.size(); i++) {
+    if (this->localLengthGroupSpace[i] != nullptr) {
+      this->localLengthGroupSpace[i]->clearCentroidCache();
+    }
+  }
+}
+
 int GlobalGroupSpace::getTotalNumberOfGroups() const
 {
   return this->totalNumberOfGroups;
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 55bdaae..e9ccb39 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -56,6 +56,11 @@ public:
   int groupMultiThreaded(
     const std::string& distance_name, data_t threshold, int num_thread, bool wholeSeriesOnly=false);
   
+  /**
+   *  @brief drops what is cached for the centroids, needed when the dataset changes
+   */
+  void clearCentroidCache() const;
+
   int getTotalNumberOfGroups() const;
   std::string getDistanceName() const;
   data_t getThreshold() const;
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 2f98c5d..dd94e0b 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -104,6 +104,11 @@ public:
     return this->centroid;
   }
 
+  /**
+   *  @brief drops what is cached for the centroid, needed when the dataset changes
+   */
+  void clearCentroidCache() const { this->centroid.clearKeoghCache(); }
+
   /**
    *  @brief gets the length of each sequence in the group
    *
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 477202b..51f4fa9 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -162,6 +162,13 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
   return numberOfGroups;
 }
 
+void LocalLengthGroupSpace::clearCentroidCache() const
+{
+  for (auto i = 0; i < groups.size(); i++) {
+    groups[i]->clearCentroidCache();
+  }
+}
+
 candidate_group_t LocalLengthGroupSpace::getBestGroup(const TimeSeries& query,
   const dist_t warpedDistance,
   data_t dropout) const
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 384d716..60240fb 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -61,6 +61,11 @@ public:
    */
   int generateGroups(const dist_t pairwiseDistance, data_t threshold);
 
+  /**
+   *  @brief drops what is cached for the centroids, needed when the dataset changes
+   */
+  void clearCentroidCache() const;
+
   /**
    *  @brief gets the group closest to a query (measured from the centroid)
    *
-- 
2.43.0


From f88b0d3c54f86ae641500eb083ef0f2de928abfc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:09:05 +0000
Subject: [PATCH 36/52] fix: release lines from readline with free

---
 cli/GenexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..3046d25 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -792,7 +793,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -829,7 +830,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 33ef56f2d51be18132fdf85aeb874bddb6b5646e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:09:19 +0000
Subject: [PATCH 37/52] fix: give identical all-zero series a Sorensen distance
 of zero

---
 genex/distance/Sorensen.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/distance/Sorensen.hpp b/genex/distance/Sorensen.hpp
index 3e4baf7..fc7a30e 100644
--- a/genex/distance/Sorensen.hpp
+++ b/genex/distance/Sorensen.hpp
@@ -27,7 +27,8 @@ public:
 
   data_t norm(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
   {
-    return total[0] / total[1];
+    // Two series of zeros are identical
+    return total[0] == 0 ? 0 : total[0] / total[1];
   }
 
   data_t normDTW(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
-- 
2.43.0


From 689d3df3f7d6abe0e3cdb93e174700b90a99ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:18:58 +0000
Subject: [PATCH 38/52] fix: start a new group when no group has a finite
 distance

The index of the nearest group was used uninitialized if every distance was
infinite or NaN and the threshold was infinite or NaN as well.
---
 genex/group/LocalLengthGroupSpace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 51f4fa9..dc4d8a3 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -78,7 +78,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (auto i = 0; i < groups.size(); i++)
       {
@@ -90,7 +90,8 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      // No group is found if every distance is infinite or not a number
+      if (bestSoFar > threshold / 2 || bestSoFarIndex == -1)
       {
         bestSoFarIndex = this->groups.size();
         auto newGroupIndex = this->groups.size();
-- 
2.43.0


From f49fdf26173a6f18030e6cd06646446d815dc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:23:35 +0000
Subject: [PATCH 39/52] fix: do not start more threads than lengths to group

A large number of threads made the creation of a thread fail, which terminated
the whole process because the threads started before were still running.
---
 genex/group/GlobalGroupSpace.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index bf165ad..5198883 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -95,11 +95,12 @@ int GlobalGroupSpace::groupMultiThreaded(
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->threshold = threshold;
   this->wholeSeriesOnly = wholeSeriesOnly;
-  ThreadPool pool(num_thread);
-  vector< std::future<int> > groupCounts;
-
   auto maxLength = this->localLengthGroupSpace.size();
   auto minLength = _getMinLength();
+  // There is one task for each length, more threads than that are never used
+  ThreadPool pool(max(min(num_thread, (int)maxLength - minLength), 1));
+  vector< std::future<int> > groupCounts;
+
   for (auto i = minLength; i < maxLength; i++)
   {
     groupCounts.emplace_back(
-- 
2.43.0


From b64fda74d58b7b3711e6a9c3b9024bb22130053d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:24:26 +0000
Subject: [PATCH 40/52] fix: use the range given to ksim together with ke

The starting and ending positions were ignored when ke was given after them.
---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 3046d25..7c57a48 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -482,7 +482,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From 6b6be0f8375ca674eefcc9ea1b7172c0c9eee756 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:24:26 +0000
Subject: [PATCH 41/52] fix: reject incomplete ranges and extra arguments of
 ksimBF

They were silently ignored and the whole time series was used as the query.
---
 cli/GenexCLI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 7c57a48..ff40f2b 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -545,6 +545,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Error! Both starting and ending positions must be provided.";
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From af05b639c417ce05561a3a74ee4acb94b5188454 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 01:25:54 +0000
Subject: [PATCH 42/52] fix: attach the default positions of getMatching to the
 right arguments

The names and default values were assigned to the last two arguments, which are
the ending position and the distance name.
---
 pygenex/GENEXBindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..914d89a 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,7 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From ed6e1398a9118e02f657df2650fb4c21375cc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:21 +0000
Subject: [PATCH 43/52] fix: refuse group files that list a member more than
 once

---
 genex/group/Group.cpp | 7 +++++--
 genex/group/Group.hpp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index a5154f2..a57466e 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -17,9 +17,12 @@ namespace genex {
 
 void Group::addMember(int tsIndex, int tsStart)
 {
+  auto& membership = this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart];
+  if (membership.groupIndex != -1) {
+    throw GenexException("A time series can be a member of one group only");
+  }
   this->count++;
-  this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart] =
-    group_membership_t(this->groupIndex, this->lastMemberCoord);
+  membership = group_membership_t(this->groupIndex, this->lastMemberCoord);
   this->lastMemberCoord = std::make_pair(tsIndex, tsStart);
 }
 
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index dd94e0b..0ca3ebd 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
-- 
2.43.0


From 4bf57edcb8f45e73730de0c851da73c6e4cf4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:21 +0000
Subject: [PATCH 44/52] fix: refuse text group files with empty groups or
 negative counts

---
 genex/group/Group.cpp                 | 3 +++
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index a57466e..beb7e40 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -169,6 +169,9 @@ void Group::loadGroupOld(ifstream &fin)
   if (!(fin >> cnt)) {
     throw GenexException("Cannot read the centroid of a group");
   }
+  if (cnt <= 0) {
+    throw GenexException("A group must have at least one member");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
     if (!(fin >> index >> start)) {
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index dc4d8a3..af0398e 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -147,7 +147,7 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  if (!(fin >> numberOfGroups)) {
+  if (!(fin >> numberOfGroups) || numberOfGroups < 0) {
     throw GenexException("Cannot read the number of groups");
   }
   for (auto i = 0; i < numberOfGroups; i++)
-- 
2.43.0


From 685cb9d40de9093457ef63edbb865cdfc4c93b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 45/52] fix: widen the counter of examined time series, it
 overflowed with large k

---
 genex/TimeSeries.cpp | 2 +-
 genex/TimeSeries.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 890f66c..48f2f42 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -11,7 +11,7 @@
 #include <cstring>
 
 // EXPERIMENT
-int extraTimeSeries = 0;
+long long extraTimeSeries = 0;
 
 namespace genex {
 
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 5e85a95..5ae5ecf 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -13,7 +13,7 @@
 #define EPS 1e-9
 
 // EXPERIMENT
-extern int extraTimeSeries;
+extern long long extraTimeSeries;
 
 namespace genex {
 
-- 
2.43.0


From 297f893b45064d04a6ba65a06b8ede51a5ca819e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 02:27:06 +0000
Subject: [PATCH 46/52] fix: refuse text group files with an impossible range
 of lengths

---
 genex/group/GlobalGroupSpace.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 5198883..af5a66f 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -252,11 +252,12 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->_loadDistance(distance);
   this->threshold = threshold;
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
-  if (lenFrom < 0 || lenTo != this->localLengthGroupSpace.size()) {
+  // Only one length is saved when whole series are grouped
+  if (lenTo != this->localLengthGroupSpace.size() || lenFrom < 1
+      || (lenFrom != 2 && lenFrom != lenTo - 1)) {
     throw GenexException("Incompatible range of lengths");
   }
-  // Only one length is saved when whole series are grouped
-  this->wholeSeriesOnly = lenFrom + 1 == lenTo;
+  this->wholeSeriesOnly = lenFrom == lenTo - 1;
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 0b8e2fe80881ca58f806980b3c34d50e20b1dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 02:27:06 +0000
Subject: [PATCH 47/52] fix: refuse group members with a starting position
 outside the series

---
 genex/group/Group.cpp | 13 +++++++++++--
 genex/group/Group.hpp |  8 +++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index beb7e40..7014b32 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -26,9 +26,18 @@ void Group::addMember(int tsIndex, int tsStart)
   this->lastMemberCoord = std::make_pair(tsIndex, tsStart);
 }
 
+TimeSeries Group::getMember(int tsIndex, int tsStart) const
+{
+  // Negative positions select the whole series
+  if (tsStart < 0 || tsStart >= this->subTimeSeriesCount) {
+    throw GenexException("Starting position of a member is out of range");
+  }
+  return this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
+}
+
 void Group::setCentroid(int tsIndex, int tsStart)
 {
-  this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
+  this->centroid = this->getMember(tsIndex, tsStart);
 }
 
 data_t Group::distanceFromCentroid(const TimeSeries& query, const dist_t distance, data_t dropout)
@@ -178,7 +187,7 @@ void Group::loadGroupOld(ifstream &fin)
       throw GenexException("Cannot read the members of a group");
     }
     // Throw if the dataset does not have this member
-    auto member = this->dataset.getTimeSeries(index, start, start + this->memberLength);
+    auto member = this->getMember(index, start);
     if (member == this->centroid) {
       // Binary group files identify a centroid by its position in the dataset
       this->setCentroid(index, start);
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 0ca3ebd..4012107 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -177,6 +177,12 @@ private:
 
   TimeSeries centroid;
 
+  /**
+   *  @brief gets a time series of the length of this group, throws if the dataset
+   *         does not have it
+   */
+  TimeSeries getMember(int index, int start) const;
+
   /*************************
    *  Start serialization
    *************************/
@@ -208,7 +214,7 @@ private:
       int index, start;
       ar >> index >> start;
       // Throw if the dataset does not have this member
-      this->dataset.getTimeSeries(index, start, start + this->memberLength);
+      this->getMember(index, start);
       this->addMember(index, start);
     }
   }
-- 
2.43.0


From 11bfa3bfd52721b89222f0e86e6ff5eb392dc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 07:48:21 +0000
Subject: [PATCH 48/52] fix: refuse tables whose size does not fit the position
 type

Positions in the value table are computed as int. A table with, for
example, 65536 rows of which one has 65536 values made the size wrap
around to zero, and loading wrote far outside the allocated memory.
---
 genex/TimeSeriesSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 34dd78b..450d27c 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -4,6 +4,7 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -103,6 +104,12 @@ void TimeSeriesSet::loadData(const string& filePath
     maxNumRow = std::min(maxNumRow, maxRowMaxColumn.first);
   }
   auto rawMaxCol = maxRowMaxColumn.second;
+  // Positions in the table are computed as int
+  if (rawMaxCol > 0 && maxNumRow > std::numeric_limits<int>::max() / rawMaxCol)
+  {
+    f.close();
+    throw GenexException("Dataset is too large");
+  }
   int length = -1;
   string line;
   // Tokenize each line using the given separators
-- 
2.43.0


From b5f2e1268fd95c548d24fe38814ec471c1de38df Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 08:03:35 +0000
Subject: [PATCH 49/52] fix: refuse files that cannot be read a second time

A dataset is read twice, first to find its size and then for its values.
With a pipe the second pass found nothing, and an empty dataset was
loaded without any error.
---
 genex/TimeSeriesSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 450d27c..efc9cd1 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -74,6 +74,11 @@ std::pair<int, int> _getMaxRowsMaxColumns(
   }
   f.clear();
   f.seekg(0);
+  if (!f)
+  {
+    // A pipe can be read only once
+    throw GenexException("Cannot read the file from the beginning again");
+  }
   return {lineCount, maxColumn};
 }
 
-- 
2.43.0


From 5ca401eaedc7ae3ded59000aa411e64a118eabdf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 08:12:10 +0000
Subject: [PATCH 50/52] fix: write the threshold of text group files with all
 digits

---
 genex/GroupableTimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 38cd1a7..bd4579d 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
+#include <iomanip>
 #include <fstream>
+#include <limits>
 #include <memory>
 
 #include "IO.hpp"
@@ -109,7 +111,9 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
+    // with enough digits to get back the same threshold
     fout << GROUP_FILE_VERSION << " "
+         << std::setprecision(std::numeric_limits<data_t>::max_digits10)
          << this->getThreshold() << " "
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
-- 
2.43.0


From 20be08eecb0933970bba3ca061030436d1211b81 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 08:52:50 +0000
Subject: [PATCH 51/52] fix: order matches by their distance only

---
 genex/TimeSeries.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 5ae5ecf..f91c0e6 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -216,7 +216,8 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (std::abs(dist - rhs.dist) < EPS)
+    // Only equal distances are ties, otherwise the order would not be transitive
+    if (dist == rhs.dist)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 06b2868d8db482a62436a0b3f70852d35fc6ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 08:54:05 +0000
Subject: [PATCH 52/52] fix: keep the centroids of groups of small values read
 from text files

---
 genex/group/Group.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7014b32..57f219e 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <vector>
 #include <algorithm>
+#include <cmath>
 
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
@@ -181,6 +182,8 @@ void Group::loadGroupOld(ifstream &fin)
   if (cnt <= 0) {
     throw GenexException("A group must have at least one member");
   }
+  const TimeSeries savedCentroid(this->centroid);
+  data_t closest = INF;
   int index, start;
   for (int i = 0; i < cnt; i++) {
     if (!(fin >> index >> start)) {
@@ -188,9 +191,18 @@ void Group::loadGroupOld(ifstream &fin)
     }
     // Throw if the dataset does not have this member
     auto member = this->getMember(index, start);
-    if (member == this->centroid) {
-      // Binary group files identify a centroid by its position in the dataset
+    // Binary group files identify a centroid by its position in the dataset. It is the
+    // member closest to the saved values, which are rounded in the text
+    data_t difference = 0;
+    bool same = true;
+    for (int j = 0; j < this->memberLength; j++) {
+      data_t diff = std::abs(member[j] - savedCentroid[j]);
+      difference = std::max(difference, diff);
+      same = same && diff <= EPS * std::max(1.0, std::abs(savedCentroid[j]));
+    }
+    if (same && difference < closest) {
       this->setCentroid(index, start);
+      closest = difference;
     }
     this->addMember(index, start);
   }
-- 
2.43.0

