From 06bc43bb49265495a56d90f96e2d9906fef94977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 01/41] fix: refuse bin numbers equal to the bin count and
 unflattening past the end

---
 src/histogram/AxisCollection.cpp | 19 ++++++++++---------
 src/histogram/Histogram.cpp      |  6 +++---
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index c390d1d..c20cbb5 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -125,15 +125,16 @@ AxisCollection::FindBin(const std::vector<double> &vals_) const
 size_t
 AxisCollection::UnflattenIndex(size_t index_, size_t dim_) const
 {
+    if (index_ >= fNBins || dim_ >= fNDimensions)
+        throw NotFoundError(Formatter()
+                            << "Can't unflatten index " << index_
+                            << " in dimension " << dim_
+                            << ", there are " << fNBins << " bins and "
+                            << fNDimensions << " dimensions");
+
     if (fNDimensions == 1)
         return index_;
 
-    if (index_ >= fNBins)
-        throw NotFoundError(Formatter()
-                            << "Can't unflatten index in non-existent"
-                            << "dimension  "
-                            << dim_);
-
     size_t x = 1;
     for (size_t i = dim_ + 1; i < fNDimensions; i++)
         x *= fAxisNbins[i];
@@ -160,7 +161,7 @@ bool AxisCollection::HasAxis(const std::string &name_)
 void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinLowEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -177,7 +178,7 @@ void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) c
 void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -193,7 +194,7 @@ void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_)
 
 void AxisCollection::GetBinCentres(size_t bin_, std::vector<double> &output_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..9a1265b 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -127,7 +127,7 @@ void Histogram::AddBinContent(size_t bin_, double content_)
 
 void Histogram::SetBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "Out of bounds bin access attempted on bin " << bin_ << " !");
     fBinContents[bin_] = content_;
 }
-- 
2.43.0


From 369a2f44647742626706f4eb2b04962b05517535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 02/41] fix: slices with several free axes keep each bin in its
 place, missing bins are refused

---
 src/histogram/Histogram.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9a1265b..2da3fc2 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,13 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin "
+                                << it->second << " of axis "
+                                << it->first << "!");
     }
 
     // want to support multidimensional slices
@@ -385,12 +392,16 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
     // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
+        // the slice bin is the one with the same free axis idxs
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+        size_t bin = slice.FlattenIndices(sliceCoords);
+
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
         slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
     }
 
     return slice;
-- 
2.43.0


From 81806650f8e66a3ccce180d2d6b43020e201f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 03/41] fix: events refuse writes past the end and name access
 without names

---
 src/data/Event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From e0a42a7ea59e03360afffceb4dc9f9d20cdd1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 04/41] fix: lattice points exist for every bracketed point,
 others are refused

---
 src/histogram/Histogram.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 2da3fc2..a9ef173 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -515,7 +515,18 @@ Histogram::GetLatticePointValues(const std::vector<double>& vals, std::vector<st
     GetBinCentres(vals_bin, vals_bin_centre);
 
     std::vector<bool> vals_is_larger; 
-    for (size_t dim=0; dim<fNDims; dim++) { vals_is_larger.push_back(vals.at(dim) >= vals_bin_centre.at(dim)); }
+    for (size_t dim=0; dim<fNDims; dim++)
+    {
+        const bool is_last_bin = vals_bin_idxs.at(dim) + 1 == fAxes.GetAxis(dim).GetNBins();
+        const bool is_larger = is_last_bin ? vals.at(dim) > vals_bin_centre.at(dim) : vals.at(dim) >= vals_bin_centre.at(dim);
+        // Between an outermost bin centre and the edge of the axis there is only one lattice point
+        if (is_larger ? is_last_bin : vals_bin_idxs.at(dim) == 0)
+        {
+            throw NotFoundError(Formatter() << "Histogram::GetLatticePointValues(): no bin centres surround "
+                                            << vals.at(dim) << " on axis " << fAxes.GetAxis(dim).GetName());
+        }
+        vals_is_larger.push_back(is_larger);
+    }
     // Obtain information about surrounding 2^N lattice points
     const size_t N_L_POINTS = 1 << fNDims;
     constexpr size_t MAX_DIMS = 20; // If you've got 20 dimensions in your histogram...tough luck! (arbitrary large number)
-- 
2.43.0


From 44e1b0c596543c50ec09be1a426702f9f1ebed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 05/41] fix: define the declared cut log remainder accessors

---
 src/cut/CutLog.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..62c2f87 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -51,6 +51,18 @@ CutLog::GetCutPercentages() const
     return fCutPercentages;
 }
 
+std::vector<int>
+CutLog::GetRemainderCounts() const
+{
+    return fRemainderCounts;
+}
+
+std::vector<double>
+CutLog::GetRemainderPercentages() const
+{
+    return fRemainderPercentages;
+}
+
 std::vector<std::string>
 CutLog::GetCutNames() const
 {
-- 
2.43.0


From 367365399fa82ef4487b420611ce92974bdcce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 06/41] fix: events of copied data sets use the copy's names, a
 sum leaves its operands alone

---
 src/data/OXSXDataSet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..e77bcb1 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -24,7 +24,10 @@ Event OXSXDataSet::GetEntry(size_t eventIndex_) const
 {
     try
     {
-        return fData.at(eventIndex_);
+        // copies of a data set share no names: link the event to the ones held here
+        Event event = fData.at(eventIndex_);
+        event.SetObservableNames(&fObservableNames);
+        return event;
     }
     catch (std::out_of_range &)
     {
@@ -52,10 +55,11 @@ OXSXDataSet::GetObservableNames() const
 OXSXDataSet
 OXSXDataSet::operator+(const OXSXDataSet &other_)
 {
+    OXSXDataSet sum(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
-- 
2.43.0


From 14996be4fa1a083949216cf1d709aaeb81928b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 07/41] fix: setting a new bin map replaces the old one

---
 src/fitutil/BinnedEDShrinker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..34fea49 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -70,6 +70,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
 
   size_t nDims = dist_.GetNDims();
 
+  // forget the map of any earlier distribution
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
 
   // 1. Build new axes. ShrinkPdf method just makes a copy if buffer size is zero
-- 
2.43.0


From ee6ed87af8e4163887b3cb360876644301d4e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 08/41] fix: composite and analytic distributions own their
 parts after copying

---
 src/dist/AnalyticED.cpp  | 12 ++++++++++++
 src/dist/AnalyticED.h    |  1 +
 src/dist/CompositeED.cpp | 19 ++++++++++++++++++-
 src/dist/CompositeED.h   |  2 ++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..0524c36 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,18 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    PDF *function = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    delete fFunction;
+    fFunction = function;
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..0c3d6b4 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_); // deep copy
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..ea984ab 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,23 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_)
+{
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+    fName = other_.fName;
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    CompositeED copy(other_);
+    fDistPtrs.swap(copy.fDistPtrs); // the old constituents are freed with the copy
+    fName = other_.fName;
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,7 +73,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
+    EventDistribution *cp = new CompositeED(*this);
     return static_cast<EventDistribution *>(cp);
 }
 
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..db68e58 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_);            // deep copy
+   CompositeED &operator=(const CompositeED &other_); // deep copy
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From 5da5bcbdee576e105de1e6af630915728b615a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 09/41] fix: setting one spectral parameter sets its bin
 content

---
 src/dist/SpectralFitDist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..eb4c9dc 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
-- 
2.43.0


From bce56e307b4f6ad42a79aca4972c8cfc8c49f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 10/41] fix: normalisations of mixed fitting modes reach their
 own distribution

---
 src/fitutil/BinnedEDManager.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..e3766e5 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -86,6 +86,12 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
     if (normalisations_.size() != fOriginalPdfs.size())
         throw LogicError("BinnedEDManager: number of norms doesn't match #pdfs");
     fNormalisations = normalisations_;
+
+    // the fittable ones are parameters as well
+    size_t j = 0;
+    for (size_t i = 0; i < fNormalisations.size(); i++)
+        if (fAllowNormsFittable.at(i))
+            fFittableNorms.at(j++) = fNormalisations.at(i);
 }
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
@@ -315,11 +321,12 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue;
+            // every fittable norm has a place in fFittableNorms, whichever kind it is
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
-            {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
-            }
+            j++;
         }
     }
 }
-- 
2.43.0


From 4af777b8414302ed337d42a72cef6def2fe777d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 11/41] fix: buffers work in several dimensions, for new data
 and when evaluating again

---
 src/fitutil/BinnedEDManager.cpp | 39 +++++++++++++++++++++------------
 src/fitutil/BinnedEDManager.h   |  2 +-
 src/teststat/BinnedNLLH.cpp     |  2 ++
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index e3766e5..25b99ae 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -97,10 +97,14 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
     // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
+    //  ( working pdfs = original pdfs )
 
     if (!sysMan_.GetNSystematics())
+    {
+        // undo any shrinking or marginalising of an earlier call
+        fWorkingPdfs = fOriginalPdfs;
         return;
+    }
     if (fAllNormsDirFittable)
     {
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
@@ -131,6 +135,8 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    if (!fOriginalPdfs.size())
+        fNDims = pdf_.GetNDims();
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
@@ -182,22 +188,27 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
+    // If a buffered axis of the working PDFs has already lost its buffer bins the shrinking has been applied successfully.
+    // If it has neither that number of bins nor the original one, something bad has happened! For these tests we assume
+    // the buffer and number of bins are the same for all PDFs so just look at the 0th element
+    const std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
+    const std::vector<std::string> axisNames = fWorkingPdfs.at(0).GetAxes().GetAxisNames();
+    bool alreadyShrunk = false;
+    for (size_t i = 0; i < axisNames.size(); i++)
     {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
+        const std::string &name = axisNames.at(i);
+        if (!bufferMap.count(name))
+            continue;
+        const size_t bufferBins = size_t(bufferMap.at(name).first) + bufferMap.at(name).second;
+        const size_t workingBins = fWorkingPdfs.at(0).GetAxes().GetAxis(name).GetNBins();
+        const size_t originalBins = fOriginalPdfs.at(0).GetAxes().GetAxis(name).GetNBins();
+        if (bufferBins && workingBins + bufferBins == originalBins)
+            alreadyShrunk = true;
+        else if (workingBins != originalBins)
+            throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
     }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
+    if (alreadyShrunk)
         return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..76558b5 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..e043eb5 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -129,6 +129,7 @@ void BinnedNLLH::BinData()
     fDataDist.Empty();
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
+    fAlreadyShrunk = false;
     SetCalculatedDataDist(true);
     SetSignalCutLog(log);
 }
@@ -276,6 +277,7 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
+    fAlreadyShrunk = false;
     SetCalculatedDataDist(true);
 }
 
-- 
2.43.0


From f485f09e975ac650895587cf8846895e1aca7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 12/41] fix: finite MC correction takes the non-negative root
 also for large MC uncertainties

---
 src/teststat/BinnedNLLH.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index e043eb5..44ab3ce 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = q ? -fDataDist.GetBinContent(i) * sigma2 / q : 0; // the roots multiply to c
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -105,7 +105,10 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        // (no data leaves no log term, even where the updated MC is zero)
+        if (fDataDist.GetBinContent(i))
+            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From 5fcda634de41b1543c8ffa3ef23bbd7e14faa005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 13/41] fix: matrix products leave their operands alone and
 keep their size, bad shapes are refused

---
 src/core/DenseMatrix.cpp  |  3 ++-
 src/core/SparseMatrix.cpp | 16 +++++++++++++---
 src/core/SparseMatrix.h   |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..68b6a83 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -62,6 +62,7 @@ DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
@@ -74,7 +75,7 @@ void DenseMatrix::SetZeros()
 
 void DenseMatrix::SetToIdentity()
 {
-    if (!fNRows || !fNCols)
+    if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "DenseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
     fArmaMat.eye();
 }
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..a6b4100 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -68,14 +68,16 @@ SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
@@ -100,6 +102,14 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+        if (rowIndices_.at(i) >= fNRows || colIndices_.at(i) >= fNCols)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_.at(i) << "," << colIndices_.at(i) << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From 85d2564df0639ddf00104206ca37c2b59096373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 14/41] fix: unknown and duplicated systematic groups are
 reported, not read past the end

---
 src/fitutil/SystematicManager.cpp | 4 ++--
 src/fitutil/SystematicManager.h   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..dd948d0 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -113,7 +113,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
@@ -191,7 +191,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
-- 
2.43.0


From 119e778e67c2e17a31baf51f6a1dc7c3f26026cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 15/41] fix: systematics keep to their own parameters and
 renaming never loses a value

---
 src/systematic/Renorm.cpp        | 13 ++++++++++---
 src/systematic/Renorm.h          |  2 +-
 src/systematic/ScaleFunction.cpp | 13 ++++++++++---
 src/systematic/Shape.cpp         | 13 ++++++++++---
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..da6024c 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,17 +47,20 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary can hold other components' parameters too
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
+            throw ParameterError("Renorm: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string> Renorm::GetParameterNames() const
@@ -74,6 +77,10 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (new_ == old_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("Renorm: can't rename " + old_ + ", there is a parameter " + new_ + " already");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..52bac8b 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,17 +98,20 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary can hold other components' parameters too
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
+            throw ParameterError("ScaleFunction: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string>
@@ -126,6 +129,10 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (new_ == old_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("ScaleFunction: can't rename " + old_ + ", there is a parameter " + new_ + " already");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..1402b96 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -83,17 +83,20 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary can hold other components' parameters too
+    ParameterDict params = fParamDict;
+    for (auto &&pair : params)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
+            throw ParameterError("Shape: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = params;
 }
 
 std::set<std::string> Shape::GetParameterNames() const
@@ -110,6 +113,10 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (new_ == old_)
+        return;
+    if (fParamDict.count(new_))
+        throw ParameterError("Shape: can't rename " + old_ + ", there is a parameter " + new_ + " already");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From 1d4df2166f7725f27d830d3837a52c84b376c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 16/41] fix: systematics rebuild their bin mapping after axes
 or observables change

---
 src/systematic/Convolution.cpp | 4 ++--
 src/systematic/Convolution.h   | 3 +--
 src/systematic/Scale.h         | 3 +--
 src/systematic/ScaleFunction.h | 3 +--
 src/systematic/Shape.h         | 4 +---
 src/systematic/Shift.h         | 3 +--
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 2 ++
 8 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..c60ae2a 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -130,7 +130,7 @@ void Convolution::Construct()
     if (!fDist || !N)
         throw LogicError("Convolution::Construct() : Tried to construct convolution without axes or function/distribution, or both!!");
     // Only work out what the mapping from blocked index to true bin index if not cached already
-    if (!fCachedIndexPermutations)
+    if (!fCachedBinMapping)
         CacheIndexPermutations();
 
     // Work out the transition probabilitites within this sub set of the bins
@@ -224,7 +224,7 @@ void Convolution::CacheIndexPermutations()
         fColumnPerms.at(idx_blocked) = i;
     }
 
-    fCachedIndexPermutations = true;
+    fCachedBinMapping = true;
 }
 
 ///////////////////////////////
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..2cdad54 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -17,7 +17,7 @@ class Convolution : public Systematic
 {
 public:
    // Constructor/Destructor
-   Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const std::string &name_) : fDist(NULL), fName(name_) {}
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
@@ -43,7 +43,6 @@ private:
    ConditionalPDF *fDist; // kernel used in convolution
    std::string fName;     // name of this object
    // Members needed for efficient calculations:
-   bool fCachedIndexPermutations;                    // have we run the CacheIndexPermutations() method yet?
    AxisCollection fSubMapAxes;                       // axes in fAxes associated with fTransObs
    AxisCollection fNotSubMapAxes;                    // axes in fAxes NOT associated with fTransObs
    std::vector<long long unsigned int> fColumnPerms; // Mapping from blocked matrix bin index -> true bin index
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..e92adb5 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -10,7 +10,7 @@
 class Scale : public Systematic
 {
 public:
-   Scale(const std::string &name_) : fScaleFactor(1), fName(name_), fParamName("scaleFactor"), fCachedBinMapping(false) {}
+   Scale(const std::string &name_) : fScaleFactor(1), fName(name_), fParamName("scaleFactor") {}
    void SetScaleFactor(double);
    double GetScaleFactor() const;
 
@@ -37,7 +37,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..941db10 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -20,7 +20,7 @@ typedef std::function<double(const ParameterDict &,
 class ScaleFunction : public Systematic
 {
 public:
-   ScaleFunction(const std::string &name_) : fScaleFunc(), fParamDict(), fName(name_), fCachedBinMapping(false) {}
+   ScaleFunction(const std::string &name_) : fScaleFunc(), fParamDict(), fName(name_) {}
 
    void SetScaleFunction(const ScaleFunc &scale_func,
                          const std::vector<std::string> &param_names);
@@ -48,7 +48,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..cbea095 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -21,8 +21,7 @@ typedef std::function<double(const ParameterDict &,
 class Shape : public Systematic
 {
 public:
-    Shape(const std::string &name_) : fShapeFunc(), fParamDict(), fName(name_),
-                                      fCachedBinMapping(false) {}
+    Shape(const std::string &name_) : fShapeFunc(), fParamDict(), fName(name_) {}
 
     void SetShapeFunction(const ShapeFunction &shape_func,
                           const std::vector<std::string> &param_names);
@@ -50,7 +49,6 @@ private:
 
     AxisCollection fTransAxes;
     std::vector<size_t> fDistTransBinMapping;
-    bool fCachedBinMapping;
 
     void CacheBinMapping();
 };
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..d4d9e08 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -10,7 +10,7 @@
 class Shift : public Systematic
 {
 public:
-   Shift(const std::string &name_) : fShift(1), fName(name_), fParamName("shift"), fCachedBinMapping(false) {}
+   Shift(const std::string &name_) : fShift(1), fName(name_), fParamName("shift") {}
    void SetShift(double);
    double GetShift() const;
 
@@ -37,7 +37,6 @@ private:
 
    std::vector<size_t> fDistTransBinMapping;
    DenseMatrix fMappingDistAndTrans;
-   bool fCachedBinMapping;
 
    void CacheBinMapping();
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..3e78df6 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    fCachedBinMapping = false;
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    fCachedBinMapping = false;
 }
 
 ObsSet
@@ -94,5 +96,6 @@ Systematic::GetAxes() const
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
+    fCachedBinMapping = false;
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..6db1d5d 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -19,6 +19,7 @@
 class Systematic : public FitComponent
 {
 public:
+   Systematic() : fCachedBinMapping(false) {}
    virtual ~Systematic() {}
 
    BinnedED
@@ -45,6 +46,7 @@ protected:
    ObsSet fDistObs;      // the full set of observables for the distriubtion to act on
    // obs of the pdfs it will act on, needs to be at least the lenth of the
    // systematics representation
+   bool fCachedBinMapping; // is any bin mapping cached for these axes & observables? Cleared when they change
 
    // methods below used for index manipilation between pdf and response
    bool BinsCompatible(size_t bin1, size_t bin2) const;
-- 
2.43.0


From 2f7186b47fcab92e7954b98770f454e809cc47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 17/41] fix: convolutions follow the order of their
 observables, copies own their kernel

---
 src/function/JumpPDF.cpp       |  6 +++++-
 src/function/JumpPDF.h         |  2 +-
 src/systematic/Convolution.cpp | 39 +++++++++++++++++++++++++---------
 src/systematic/Convolution.h   |  2 ++
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..48f6a0c 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,9 +33,13 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fPDF;
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
   else
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index c60ae2a..da213fd 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -18,6 +18,28 @@ void Convolution::SetConditionalPDF(ConditionalPDF *c_)
     fDist = c_->Clone();
 }
 
+Convolution::Convolution(const Convolution &other_) : Systematic(other_), fDist(other_.fDist ? other_.fDist->Clone() : NULL),
+                                                      fName(other_.fName), fSubMapAxes(other_.fSubMapAxes),
+                                                      fNotSubMapAxes(other_.fNotSubMapAxes), fColumnPerms(other_.fColumnPerms)
+{
+}
+
+Convolution &
+Convolution::operator=(const Convolution &other_)
+{
+    if (this != &other_)
+    {
+        Systematic::operator=(other_);
+        delete fDist;
+        fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+        fName = other_.fName;
+        fSubMapAxes = other_.fSubMapAxes;
+        fNotSubMapAxes = other_.fNotSubMapAxes;
+        fColumnPerms = other_.fColumnPerms;
+    }
+    return *this;
+}
+
 Convolution::~Convolution()
 {
     delete fDist;
@@ -163,22 +185,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    // The sub-collection's axes are in the order of the relative indices
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -186,7 +205,7 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
-    const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
+    const size_t idx_notsub = bin_idxs_notsub.empty() ? 0 : fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
     return idx_blocked;
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 2cdad54..cc670f3 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_) {}
+   Convolution(const Convolution &); // a copy has its own kernel
+   Convolution &operator=(const Convolution &);
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
-- 
2.43.0


From 1aa13a2d2f232c0981db6e170b67717b2a2f9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 18/41] fix: correlations of -1 and beyond are refused like +1

---
 src/constraint/BivariateQuadraticConstraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..626c2c9 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,9 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (!(fCorr > -1. && fCorr < 1.))
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation has to lie strictly between -1 and 1!");
         }
     }
     // Evaluate constraint at a particular pair of values
-- 
2.43.0


From 1bff39b596346da5b22955c55992329af8ddb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 19/41] fix: named parameters beyond the first read back,
 renames never collide, declared accessors exist

---
 src/core/ParameterManager.cpp              | 7 +++++--
 src/dist/SpectralFitDist.cpp               | 2 ++
 src/eventSystematic/EventReconvolution.cpp | 6 ++++++
 src/function/GaussianFitter.cpp            | 8 ++++----
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..7236442 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -54,12 +54,15 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
-    fParamPtrs[n_] = p_;
+    FitParameter *&slot = fParamPtrs[n_];
+    if (slot != p_)
+        delete slot;
+    slot = p_;
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index eb4c9dc..2b2f5d1 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -76,6 +76,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (new_ != old_ && std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + ": it already exists, parameters are called: \n " + ToString(fBinNames));
     *it = new_;
 }
 
diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..b95deef 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -30,6 +30,12 @@ void EventReconvolution::SetCorrection(double correction_)
     fCorrection = correction_;
 }
 
+double
+EventReconvolution::GetCorrection() const
+{
+    return fCorrection;
+}
+
 // Fit Component Interface
 
 void EventReconvolution::SetParameter(const std::string &name_, double value)
diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..d2612b9 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
@@ -101,9 +101,9 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(it - fStdDevsNames.begin());
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(it - fMeansNames.begin());
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
-- 
2.43.0


From ab1b552dfb0a26b93b057cfb4af6d526f2e517a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 20/41] fix: Von Neumann sampling draws until a value is
 accepted

---
 src/rand/Rand.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..071e88c 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -60,14 +60,14 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
 
   // Von-neuman sampling
   double draw = 0;
-  double fOfX = 1;
+  double fOfX = 0;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From 21ff3be50af768d75305e8847fd9bdefb3b2d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 21/41] fix: a cut collection survives being assigned to itself

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From 29ff72cf75d96bebf3f173698e0078df550d9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 22/41] fix: counting backgrounds again replaces the previous
 count

---
 src/count/CountingExperiment.cpp | 3 +++
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..8139ae9 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -21,6 +21,9 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // counting again replaces the previous count
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From 8dcdb96490b357f0ea6fa800eb468731fc7e6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 23/41] fix: mismatched section brackets and loading without a
 file are refused

---
 src/config/ConfigLoader.cpp | 4 +++-
 src/config/ini.hpp          | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..d7d43db 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -20,7 +20,7 @@ void ConfigLoader::Open(const std::string &fileName_)
     {
         throw IOError("Can't find config file " + fileName_);
     }
-    delete fParser;
+    Close();
     fParser = new INI::Parser(ss);
 }
 
@@ -41,6 +41,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw IOError("No config file is open");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 8d9cded..39871ac 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -117,7 +117,13 @@ namespace INI
       if (line_[depth] != '[')
         break;
 
-    sname = line_.substr(depth, line_.length() - 2 * depth);
+    // the name is followed by as many closing brackets and nothing else
+    size_t end = line_.find(']');
+    if (end == std::string::npos || line_.length() - end != depth ||
+        line_.find_first_not_of(']', end) != std::string::npos)
+      err("section brackets don't match");
+
+    sname = trim(line_.substr(depth, end - depth));
   }
 
   inline void
-- 
2.43.0


From 8b8e1f8bb3f190c8f770dfa136aad3599614178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 24/41] fix: the posterior's upper limit uses the bin that
 reaches the credible level

---
 src/interval/BayesIntervalCalc.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..84a6d52 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (cl_ <= 0 || cl_ > 1)
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and <=1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -24,18 +24,16 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     posterior_.Normalise();
 
     // Integrate from the minimum to x until the total probability exceeds cl_
-    // find the first bin <b> for which the integral  <0>-><b> > cl
+    // find the first bin <b> for which the integral  <0>-><b> >= cl
+    // (empty bins can't hold it, even if rounding leaves the full integral below one)
     size_t critBin = 0;
     double sum = 0;
-    while (sum < cl_)
+    for (size_t i = 0; i < posterior_.GetNBins() && sum < cl_; i++)
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
-        critBin++;
+        if (!posterior_.GetBinContent(i))
+            continue;
+        sum += posterior_.GetBinContent(i);
+        critBin = i;
     }
 
     // now interpolate between the bins
-- 
2.43.0


From 4a1e0410ec4b5900ddde2ba7431b8982a11c11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 25/41] fix: assigned fit results copy the statistic space,
 variance is the variance

---
 src/optimise/AutoCorrelationCalc.cpp |  4 ++--
 src/optimise/FitResult.cpp           | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..61010c0 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,7 +26,9 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *statSpace = new Histogram(statSpace_);
+    delete fStatSpace;
+    fStatSpace = statSpace;
 }
 
 const Histogram &
@@ -38,10 +40,10 @@ FitResult::GetStatSpace() const
 FitResult
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
-        fStatSpace = NULL;
-    else
-        fStatSpace = new Histogram(*other_.fStatSpace);
+    Histogram *statSpace = other_.fStatSpace ? new Histogram(*other_.fStatSpace) : NULL;
+    delete fStatSpace;
+    fStatSpace = statSpace;
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fBestFit = other_.fBestFit;
     fExtremeVal = other_.fExtremeVal;
@@ -61,6 +63,7 @@ FitResult::FitResult(const FitResult &other_)
         fStatSpace = new Histogram(*other_.fStatSpace);
     fStatSample = other_.fStatSample;
     fBestFit = other_.fBestFit;
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fExtremeVal = other_.fExtremeVal;
     f1DProjections = other_.f1DProjections;
-- 
2.43.0


From 3f11e39f90809a6f95acc7ac5fd88a1c87c63e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 26/41] fix: grid search visits every grid point and reports
 the best one's value

---
 src/optimise/GridSearch.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..a87d7b2 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -69,6 +69,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
+    bool first = true;
 
     // Initialise LH space and count the number of grid steps
     unsigned maxSteps = 1;
@@ -97,7 +98,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -116,24 +117,26 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        if (first || currentVal < fMinVal)
         {
+            first = false;
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
+    // every index has wrapped around: the grid is finished
+    if (it_ == end_)
         return false;
+
+    const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
     // wrap around past the maximum
@@ -141,15 +144,8 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     {
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
         // ripple up to next index
-        if (Increment(++it_, end_)) // propagate the false down
-            return true;
-        else
-            return false;
+        return Increment(++it_, end_);
     }
     return true;
 }
-- 
2.43.0


From 906e8c077e06b52d1fc6481fae25c3f7d094655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 27/41] fix: trajectories reflect at walls they reach exactly

---
 src/optimise/LeapFrog.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimise/LeapFrog.cpp b/src/optimise/LeapFrog.cpp
index 6b06b19..351758a 100644
--- a/src/optimise/LeapFrog.cpp
+++ b/src/optimise/LeapFrog.cpp
@@ -21,9 +21,10 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
         double maxtime = IntersectionTime(maxima_.at(it->first), initPos_.at(it->first), vel);
 
         // only pick up crosses in the right direction
-        // the other way shouldn't happen, but round off error can make it so
-        bool mincrossed = (mintime > 0 && mintime < epsilon_ && (it->second > minima_.at(it->first)));
-        bool maxcrossed = (maxtime > 0 && maxtime < epsilon_ && (it->second < maxima_.at(it->first)));
+        // a wall that has just been reached (or passed by round off error) is crossed at once
+        bool walls = minima_.at(it->first) < maxima_.at(it->first);
+        bool mincrossed = (walls && vel < 0 && mintime < epsilon_);
+        bool maxcrossed = (walls && vel > 0 && maxtime < epsilon_);
 
         if (!mincrossed && !maxcrossed)
             continue;
@@ -33,6 +34,8 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
             time = mintime;
         else if (maxcrossed)
             time = maxtime;
+        if (time < 0)
+            time = 0;
 
         if (crossTime_ == -1 || time < crossTime_)
         {
-- 
2.43.0


From acde61e1b86f99ed8074012639c14529a6996b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 28/41] fix: copies of a varying CDF own their functions,
 parameters go to the function that has them

---
 src/function/VaryingCDF.cpp | 60 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..a7ddfc4 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_) : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -32,18 +32,25 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    *this = copy_;
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    if (this == &copy_)
+        return *this;
+
+    for (std::map<std::string, Function *>::iterator it = fFunctions.begin(); it != fFunctions.end(); ++it)
+        delete it->second;
+    fFunctions.clear();
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+
+    delete fCdf;
+    fCdf = copy_.fCdf ? copy_.fCdf->Clone() : NULL;
     fName = copy_.fName;
     return *this;
 }
@@ -77,7 +84,10 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *func = func_->Clone();
+    Function *&held = fFunctions[paraName_];
+    delete held;
+    held = func;
 }
 
 double
@@ -93,7 +103,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *cdf = PDF_->Clone();
+    delete fCdf;
+    fCdf = cdf;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -101,7 +113,9 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
-    fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    ConditionalPDF *cdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    delete fCdf;
+    fCdf = cdf;
 }
 
 std::vector<double>
@@ -115,10 +129,16 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(name_))
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << name_ << " not found. Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -127,13 +147,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -168,12 +183,7 @@ VaryingCDF::GetParameters() const
 size_t
 VaryingCDF::GetParameterCount() const
 {
-    size_t number = 0;
-    for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
-    {
-        number += function->second->GetParameterCount();
-    }
-    return number;
+    return GetParameterNames().size(); // a name shared by several functions counts once
 }
 
 std::set<std::string>
@@ -190,10 +200,16 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(old_))
+            continue;
         function->second->RenameParameter(old_, new_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << old_ << " not found. Parameters available : " << ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From 3fa4437c3508d061882f6e32058a3d1b7ec84d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 29/41] fix: Gaussian refuses means and widths of the wrong
 dimension, counts shared names once

---
 src/function/Gaussian.cpp       | 8 ++++++++
 src/function/GaussianFitter.cpp | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 907e3d1..33a222a 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -109,21 +109,29 @@ Gaussian::GetStDev(size_t dimension_) const
 
 void Gaussian::SetMean(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fMeans.size())
+        throw NotFoundError("Gaussian::Tried to set a mean beyond function dimensionality!");
     fMeans[dim_] = value_;
 }
 
 void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fStdDevs.size())
+        throw NotFoundError("Gaussian::Tried to set a stdDev beyond function dimensionality!");
     fStdDevs[dim_] = value_;
 }
 
 void Gaussian::SetMeans(const std::vector<double> &means_)
 {
+    if (means_.size() != fNDims)
+        throw DimensionError("Gaussian::Tried to set #means != #dimensions!");
     fMeans = means_;
 }
 
 void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
 {
+    if (stddevs_.size() != fNDims)
+        throw DimensionError("Gaussian::Tried to set #stdDevs != #dimensions!");
     fStdDevs = stddevs_;
 }
 
diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index d2612b9..1e4404c 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -136,7 +136,7 @@ GaussianFitter::GetParameters() const
 size_t
 GaussianFitter::GetParameterCount() const
 {
-    return fMeansNames.size() + fStdDevsNames.size();
+    return GetParameterNames().size(); // a name shared by several quantities counts once
 }
 
 std::set<std::string>
-- 
2.43.0


From dbf35c09b401db84edd3adef07c4136f44b53e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 30/41] fix: generated data sets draw from all unused events
 and count what is left

---
 src/data/DataSetGenerator.cpp | 112 ++++++++++++----------------------
 src/data/DataSetGenerator.h   |   1 +
 2 files changed, 39 insertions(+), 74 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..3c03aa4 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -26,7 +26,7 @@ void DataSetGenerator::SetDataSets(const std::vector<DataSet *> sets_)
   fEventIndicies.clear();
   fMaxs.clear();
   fEventIndicies.resize(sets_.size());
-  fMaxs.resize(sets_.size(), -999);
+  fMaxs.resize(sets_.size(), -1);
 }
 
 void DataSetGenerator::SetExpectedRates(const std::vector<double> &rates_)
@@ -173,7 +173,21 @@ void DataSetGenerator::Reset()
 {
   fEventIndicies.clear();
   fEventIndicies.resize(fDataSets.size());
-  fMaxs = std::vector<size_t>(fDataSets.size(), -999);
+  fMaxs = std::vector<size_t>(fDataSets.size(), -1);
+}
+
+// All events are unused until some are drawn: fMaxs is the index of the last unused one, -1 if there is none
+void DataSetGenerator::InitialiseIndices(size_t handleIndex_)
+{
+  std::vector<size_t> &eventIndices = fEventIndicies.at(handleIndex_);
+  if (eventIndices.size())
+    return;
+
+  size_t nEntries = fDataSets.at(handleIndex_)->GetNEntries();
+  eventIndices.reserve(nEntries);
+  for (size_t i = 0; i < nEntries; i++)
+    eventIndices.push_back(i);
+  fMaxs.at(handleIndex_) = nEntries - 1; // the effective end of the array
 }
 
 void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_,
@@ -182,22 +196,15 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
 
   // see http://stackoverflow.com/questions/196017/unique-non-repeating-random-numbers-in-o1#196065
   // credit to Robert Gamble http://stackoverflow.com/users/25222/robert-gamble
+  InitialiseIndices(handleIndex_);
   std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > max + 1)
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
-                                    << "events!)");
+                                    << nEvents_ << " but only have " << max + 1
+                                    << " events left!)");
 
   size_t cache = -1; // for swapping
   size_t draw = -1;  // the random draw
@@ -208,10 +215,8 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-    // draw
-    draw = Rand::Shoot(max);
+    // draw from the unused events, the last one included
+    draw = Rand::Shoot(max + 1);
 
     cache = eventIndices[draw];
     eventIndices[draw] = eventIndices[max];
@@ -232,21 +237,11 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
                                                   OXSXDataSet &outData_)
 {
 
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
   size_t draw = -1; // the random draw
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
@@ -255,15 +250,12 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(origData->GetNEntries());
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    if (fCuts.PassesCuts(origData->GetEntry(draw)))
+      outData_.AddEntry(origData->GetEntry(draw));
   }
 
   return;
@@ -275,7 +267,7 @@ void DataSetGenerator::AddDataSet(DataSet *data_, double rate_, bool flag_)
   fDataSets.push_back(data_);
   fExpectedRates.push_back(rate_);
   fEventIndicies.push_back(std::vector<size_t>());
-  fMaxs.push_back(0);
+  fMaxs.push_back(-1);
 }
 
 const std::vector<bool> &
@@ -300,30 +292,19 @@ void DataSetGenerator::ClearDataSets()
 
 void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_)
 {
+  InitialiseIndices(handleIndex_);
   std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > max + 1)
     throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
                                     << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
-  if (!(origData->GetNEntries()))
-    throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
-                                    << nEvents_ << " but there are no events!");
-
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
+                                    << " but only have " << max + 1 << " left)");
 
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
+  // take the first ones: they go behind the unused events, keeping their order
+  std::rotate(eventIndices.begin(), eventIndices.begin() + nEvents_, eventIndices.begin() + max + 1);
+  max -= nEvents_;
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
   size_t oneTenth = nEvents_ / 10;
@@ -332,23 +313,10 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (oneTenth && !(i % oneTenth))
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
-
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      data_.AddEntry(origData->GetEntry(eventIndices[draw]));
-
-    // deincrement
-    max--;
+    size_t draw = eventIndices[max + 1 + i];
+    if (fCuts.PassesCuts(origData->GetEntry(draw)))
+      data_.AddEntry(origData->GetEntry(draw));
   }
 
   return;
@@ -372,18 +340,14 @@ DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
 
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
+  InitialiseIndices(iDS_);
+  size_t nEvents = fMaxs.at(iDS_) + 1; // zero if all are drawn and not replaced
 
   const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
 
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
diff --git a/src/data/DataSetGenerator.h b/src/data/DataSetGenerator.h
index edea345..f472216 100644
--- a/src/data/DataSetGenerator.h
+++ b/src/data/DataSetGenerator.h
@@ -47,6 +47,7 @@ private:
    std::vector<double> fExpectedRates;
    std::vector<std::vector<size_t>> fEventIndicies;
    std::vector<size_t> fMaxs;
+   void InitialiseIndices(size_t handleIndex_);
    void RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
-- 
2.43.0


From dc73a9e4712e5b880434ef9ffdc5569de8c3476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 31/41] fix: the Markov chain's best fit includes its last
 step, the saved chain and rejection rate exist

---
 src/optimise/MCMC.cpp        | 18 ++++++++++++------
 src/optimise/MCMC.h          |  3 ++-
 src/optimise/MCMCSamples.cpp |  2 +-
 src/optimise/MCMCSamples.h   |  2 +-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..2d23f25 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -52,6 +52,12 @@ void MCMC::SetMaxIter(unsigned maxIter_)
     fMaxIter = maxIter_;
 }
 
+double
+MCMC::GetRejectionRate() const
+{
+    return fSamples.GetRejectionRate();
+}
+
 const MCMCSamples &
 MCMC::GetSamples() const
 {
@@ -227,12 +233,6 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
@@ -251,5 +251,11 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         fCurrentStep = proposedStep_;
     }
 
+    if (fCurrentVal > fMaxVal)
+    {
+        fMaxVal = fCurrentVal;
+        fBestFit = fCurrentStep;
+    }
+
     return accept;
 }
diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..2db9b00 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -110,7 +110,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.resize(paramNames.size());
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..5c67266 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -13,7 +13,7 @@ class MCMCSamples
 public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
-                           fAutoCorrelator(1000),
+                           fAutoCorrelator(1000), fChain(NULL),
                            fSaveChain(false)
    {
    }
-- 
2.43.0


From 76258d237b4f2d33dd4d69c34c85ed72239c7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 32/41] fix: saved files hold names of any length and empty
 data sets

---
 src/data/IO.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..0a1ec0c 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -100,17 +100,22 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    //  the string type is as long as the names, including the terminator
+    std::string obsList = FlattenStringVector(observableNames);
+    H5::StrType strType(H5::PredType::C_S1, obsList.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
+    obsListAtt.write(strType, obsList);
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
                                                      attSpace);
     countAtt.write(H5::PredType::NATIVE_INT, &nObs);
 
+    // an empty data set is just the attributes
+    if (!nData)
+        return;
+
     //  Write the data
     //  Flatten data into 1D array
     //  HDF5 likes c arrays. Here use a vector and pass pointer to first element
@@ -198,7 +203,8 @@ IO::LoadDataSet(const std::string &filename_)
     if (nEntries < 1000000)
     {
         std::vector<double> flatData(nData, 0);
-        dataSet.read(&flatData.at(0), H5::PredType::NATIVE_DOUBLE);
+        if (nData)
+            dataSet.read(&flatData.at(0), H5::PredType::NATIVE_DOUBLE);
 
         std::vector<double> oneEventObs(nObs, 0);
         for (size_t i = 0; i < nEntries; i++)
@@ -355,14 +361,18 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    // the string types are as long as the names, including the terminator
+    std::string nameList = FlattenStringVector(axisNames);
+    std::string latexNameList = FlattenStringVector(axisLatexNames);
+    H5::StrType nameType(H5::PredType::C_S1, nameList.size() + 1);
+    H5::StrType latexNameType(H5::PredType::C_S1, latexNameList.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
 
-    H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
+    H5::Attribute nameListAtt = theData.createAttribute("axis_names", nameType, attSpace);
+    nameListAtt.write(nameType, nameList);
 
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", latexNameType, attSpace);
+    latexNameListAtt.write(latexNameType, latexNameList);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From 6c7a44e354fd916b2499754d151553d9cb8c2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 33/41] fix: histograms converted from ROOT keep their bin
 edges

---
 src/dist/DistTools.cpp | 55 +++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..9760ed1 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -11,6 +11,19 @@
 #include <iostream>
 #include <algorithm>
 
+// keeps the bin edges, which need not be evenly spaced
+static BinAxis ToBinAxis(const TAxis &axis_)
+{
+    std::vector<double> lowEdges;
+    std::vector<double> highEdges;
+    for (int i = 1; i < axis_.GetNbins() + 1; i++)
+    {
+        lowEdges.push_back(axis_.GetBinLowEdge(i));
+        highEdges.push_back(axis_.GetBinUpEdge(i));
+    }
+    return BinAxis(axis_.GetTitle(), lowEdges, highEdges);
+}
+
 Histogram
 DistTools::ToHist(const PDF &analytic_, const AxisCollection &axes_)
 {
@@ -175,12 +188,7 @@ Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +203,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +227,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetZaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From 3f19aaab652551eecd85b6f6674a9636f659e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 34/41] fix: events of lazily loaded data sets outlive the
 loaded file, copies and assignments release it

---
 src/data/LazyOXSXDataSet.cpp | 10 +++++++---
 src/data/LazyOXSXDataSet.h   |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..f5a40f7 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,13 +12,14 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
@@ -51,6 +52,7 @@ void LazyOXSXDataSet::Load() const
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
   fDataSet = IO::LoadDataSet(fFileName);
+  fObservableNames = fDataSet->GetObservableNames();
 }
 
 void LazyOXSXDataSet::Close() const
@@ -73,6 +75,8 @@ Event LazyOXSXDataSet::GetEntry(size_t i_) const
 {
   if (!fDataSet)
     Load();
-  return fDataSet->GetEntry(i_);
+  Event event = fDataSet->GetEntry(i_);
+  event.SetObservableNames(&fObservableNames);
+  return event;
 }
 std::vector<LazyOXSXDataSet *> LazyOXSXDataSet::fFiles;
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1c1a372 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
@@ -35,5 +35,7 @@ private:
     static std::vector<LazyOXSXDataSet *> fFiles;
     std::string fFileName;
     mutable OXSXDataSet *fDataSet;
+    // kept when the data are closed: events handed out point here
+    mutable std::vector<std::string> fObservableNames;
 };
 #endif
-- 
2.43.0


From 7d514aa2f21cc5b47bc292b1623244a36edac9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 35/41] fix: data sets without entries or observables save and
 load

---
 src/data/IO.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 0a1ec0c..3cf403f 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -87,6 +87,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 
     // create colon separated string from list of observables
     std::vector<std::string> observableNames = dataSet_.GetObservableNames();
+    if (!nEntries) // the number of observables may only be known from the entries
+        nObs = observableNames.size();
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
@@ -191,12 +193,13 @@ IO::LoadDataSet(const std::string &filename_)
     OXSXDataSet *oxsxDataSet = new OXSXDataSet;
 
     // Set the variable names
-    oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    if (nObs)
+        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
 
     // Read data out as 1D array
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
-    size_t nEntries = nData / nObs;
+    size_t nEntries = nObs ? nData / nObs : 0;
     oxsxDataSet->Reserve(nEntries);
 
     // if the data set is small, just load it up all in one go
-- 
2.43.0


From 43c395277138a2b2d993eba5ec8d55ac155f242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 36/41] fix: report the total of fixed-norm distributions as
 their normalisation also without systematics

---
 src/fitutil/BinnedEDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 25b99ae..886debf 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -103,6 +103,11 @@ void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
     {
         // undo any shrinking or marginalising of an earlier call
         fWorkingPdfs = fOriginalPdfs;
+        for (size_t i = 0; i < fWorkingPdfs.size(); i++)
+        {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                fNormalisations[i] = fWorkingPdfs.at(i).Integral();
+        }
         return;
     }
     if (fAllNormsDirFittable)
-- 
2.43.0


From 2e935c610f8a1be603fedf7ee14ea78ddad18d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 37/41] fix: normalisations set before a fixed or indirect
 distribution is added are kept

---
 src/fitutil/BinnedEDManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 886debf..d008af0 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -153,6 +153,14 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     }
     if (norm_fitting_status != DIRECT)
     {
+        // until now the normalisations themselves were the parameters: keep what was set
+        if (fAllNormsDirFittable)
+        {
+            size_t j = 0;
+            for (size_t i = 0; i < fNormalisations.size(); i++)
+                if (fAllowNormsFittable.at(i))
+                    fFittableNorms.at(j++) = fNormalisations.at(i);
+        }
         fAllNormsDirFittable = false;
     }
     RegisterParameters();
-- 
2.43.0


From b558c30d72663fa7ebef42b689e7deffbd9472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 38/41] fix: copies of distribution managers own their
 distributions and keep their parameters

---
 src/fitutil/BinnedEDManager.cpp | 21 +++++++++++++++++++++
 src/fitutil/BinnedEDManager.h   |  4 ++++
 src/fitutil/EDManager.cpp       | 23 +++++++++++++++++++++++
 src/fitutil/EDManager.h         |  4 ++++
 4 files changed, 52 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index d008af0..48ce18a 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -5,6 +5,27 @@
 #include <Exceptions.h>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
+{
+    *this = other_;
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 76558b5..e26079d 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -24,6 +24,10 @@ class BinnedEDManager : public FitComponent
 public:
    BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
 
+   // a copy fits its own normalisations
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
+
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
                 const std::vector<NormFittingStatus> *norm_fitting_statuses = nullptr);
diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..2131d74 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -9,6 +9,29 @@ EDManager::~EDManager()
         delete fDists[i];
 }
 
+EDManager::EDManager(const EDManager &other_) : fNDists(0), fNDims(0)
+{
+    *this = other_;
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    if (this == &other_)
+        return *this;
+    for (size_t i = 0; i < fDists.size(); i++)
+        delete fDists[i];
+    fDists.clear();
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        fDists.push_back(other_.fDists.at(i)->Clone());
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 void EDManager::AddDist(EventDistribution *pdf_)
 {
     if (!fDists.size())
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..e9106ed 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -13,6 +13,10 @@ public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
    ~EDManager(); // free pdf copies
 
+   // a copy has its own pdf copies and fits its own normalisations
+   EDManager(const EDManager &);
+   EDManager &operator=(const EDManager &);
+
    void AddDist(EventDistribution *); // take a copy
    void AddDists(const std::vector<EventDistribution *> &pdfs_);
 
-- 
2.43.0


From 396c2d7e4aa1f2aaf1c5ef12003bf1276c1e98d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 39/41] fix: every BinnedNLLH::AddPdfs refuses a wrong number
 of fitting modes

---
 src/teststat/BinnedNLLH.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 44ab3ce..ab015af 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -226,6 +226,10 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
 {
     if (pdfs.size() != sys_.size())
         throw DimensionError(Formatter() << "BinnedNLLH:: #sys_ != #group_");
+    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
+    {
+        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
+    }
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
-- 
2.43.0


From 162d03813c3458c39cd094e528056eaa0ac11552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:21 +0000
Subject: [PATCH 40/41] fix: Minuit keeps the upper contour edge that was set
 when a fit is initialised

---
 src/optimise/Minuit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..43f9ca2 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,10 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
+    // (keeping the contour edge that has been set)
+    const double upperContourEdge = fMinuitFCN.GetUp();
     fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    fMinuitFCN.SetUp(upperContourEdge);
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From b73500238a3ec9ff80861ae7adf390300e5b7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:21 +0000
Subject: [PATCH 41/41] fix: MinuitFCN drops the previous parameters when it is
 assigned

---
 src/optimise/MinuitFCN.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MinuitFCN.cpp b/src/optimise/MinuitFCN.cpp
index a3759c3..c76f162 100644
--- a/src/optimise/MinuitFCN.cpp
+++ b/src/optimise/MinuitFCN.cpp
@@ -25,7 +25,8 @@ MinuitFCN::operator=(const MinuitFCN &other_)
     fFlipSign = other_.fFlipSign;
     fParameterNames = other_.fParameterNames;
 
-    // don't bother copying fSetParameters
+    // don't bother copying fSetParameters, but drop any values of the previous parameters
+    fSetParameters.clear();
     return *this;
 }
 
-- 
2.43.0

