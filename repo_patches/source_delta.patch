From 3f40f194d68d72b68251cb3e639be4764b2c0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 01/56] fix: rebuild the admittance matrix after a failed
 decomposition or a mode change

After a decomposition failure (or hitting the decomposition limit) the solver
cleared its rebuild flag and left the un-decomposed matrix in place, so the next
step solved against garbage unless a link happened to change its admittance.
Leaving DUMMY/SLAVE mode or changing the island mode had the same effect.
---
 core/Gunns.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..fead275 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -759,6 +759,8 @@ void Gunns::step(const double timeStep)
     try {
         isConverged = iterateMinorSteps(timeStep);
     } catch (TsNumericalException& e) {
+        /// - The admittance matrix may be left un-decomposed, so force a rebuild next time.
+        mRebuild = true;
         mStepLog.recordStepResult(mLastDecomposition, GunnsMinorStepData::MATH_FAIL);
         mStepLog.endMajorStep();
         throw e;
@@ -796,7 +798,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -883,6 +884,8 @@ bool Gunns::iterateMinorSteps(const double timeStep)
                 buildAndSolveSystem(mLastMinorStep, timeStep);
             } catch (TsOutOfBoundsException &e) {
                 networkConverged = false;
+                /// - The admittance matrix is left un-decomposed, so force a rebuild next time.
+                mRebuild = true;
                 /// - Pause recording minor step potentials when the recorded node fails to converge.
                 mDebugDesiredNode = -1;
                 mStepLog.recordNodesConvergence(mNodesConvergence);
@@ -1100,11 +1103,13 @@ void Gunns::checkStepInputs()
 {
     if (mLastSolverMode != mSolverMode) {
         mLastSolverMode  = mSolverMode;
+        mRebuild         = true;
         GUNNS_INFO("solver mode changed to " << getSolverModeString() << ".");
     }
 
     if (mLastIslandMode != mIslandMode) {
         mLastIslandMode  = mIslandMode;
+        mRebuild         = true;
         GUNNS_INFO("island mode changed to " << getIslandModeString() << ".");
     }
 
-- 
2.43.0


From 8acb3e8cde9ff1c327429b7ecd72e52d3baaaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 02/56] fix: restore the default port map on restart when ports
 hold each other's default nodes

---
 core/GunnsBasicLink.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..7e15d92 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -291,6 +291,14 @@ void GunnsBasicLink::initialize(const GunnsBasicLinkConfigData& configData,
 void GunnsBasicLink::restart()
 {
     initializeRestartCommonFunctions();
+
+    /// - A port can't return to its default node while another port of this link still occupies it,
+    ///   so first move the displaced ports out of each other's way to the Ground node.
+    for (int i = 0; i < mNumPorts; ++i) {
+        if (mNodeMap[i] != mDefaultNodeMap[i]) {
+            setPort(i, getGroundNodeIndex(), "restart", false);
+        }
+    }
     registerNodes(mDefaultNodeMap, "restart", true);
     restartModel();
 }
-- 
2.43.0


From e1b6acfb002aa026a6e8592bff383f594450a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 03/56] fix: recognise isolated islands of any admittance
 magnitude when conditioning the matrix

The row sum of a non-capacitive isolated node is zero only to within the rounding
error of its terms, so comparing it with an absolute epsilon missed islands with
admittances above about 4 and the decomposition failed on a singular matrix.
---
 core/Gunns.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index fead275..53b650a 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1623,8 +1623,10 @@ void Gunns::conditionAdmittanceMatrix()
             rowSum += mAdmittanceMatrix[index];
         }
 
-        if (std::fabs(rowSum) < DBL_EPSILON) {
-            const int diagonal = row*mNetworkSize+row;
+        /// - The row sum is compared to the rounding error of the terms that were summed, which scales
+        ///   with the diagonal.
+        const int diagonal = row*mNetworkSize+row;
+        if (std::fabs(rowSum) < DBL_EPSILON * std::max(1.0, 4.0 * mAdmittanceMatrix[diagonal])) {
             mAdmittanceMatrix[diagonal] += std::max(mAdmittanceMatrix[diagonal], DBL_EPSILON) * 1.0E-15;
         }
     }
-- 
2.43.0


From 58006b7d9fd1371be45a5a83e7a0343f42289cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 04/56] fix: check for an empty H&S message queue with its lock
 held when removing

---
 ms-utils/simulation/hs/TsHsMsgQueue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.cpp b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
index 685917a..6ca791c 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
@@ -222,11 +222,15 @@ void TsHsMsgQueue::insertMsg(TsHsMsgQueueNode& node)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 bool TsHsMsgQueue::removeMsg(TsHsMsgQueueNode& node)
 {
-    // Return false if the the queue is empty
+    pthread_mutex_lock(&mMutex);
+
+    // Return false if the the queue is empty. This is checked with the lock held since another thread
+    // may be removing the last message.
     if (isEmpty())
+    {
+        pthread_mutex_unlock(&mMutex);
         return false;
-
-    pthread_mutex_lock(&mMutex);
+    }
 
     // Copy message at head of queue to return node
     node.mFile      = mHead->mFile;
-- 
2.43.0


From c93541b432c5e21f419b504ae4fa69cc08ea58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 05/56] fix: consider every remembered message when bumping the
 oldest one from the H&S filter

---
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index fa3c65b..7ae5d4c 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -97,7 +97,7 @@ void TsHsMsgStdFilter::purgeMessages()
 
     TsHsMessageMap::iterator oldest = mMessageMap.begin();
 
-    for (TsHsMessageMap::iterator iter = ++oldest; iter != mMessageMap.end(); iter++)
+    for (TsHsMessageMap::iterator iter = oldest; iter != mMessageMap.end(); iter++)
     {
         if ((*iter).second.back() < (*oldest).second.back())
         {
-- 
2.43.0


From c6bb29f15008f78e6ce4429491b63fdc221cc6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 06/56] fix: keep logging to the timestamped H&S text file
 after a restart

---
 ms-utils/simulation/hs/TsHsTextPlugin.cpp | 7 +++++--
 ms-utils/simulation/hs/TsHsTextPlugin.hh  | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.cpp b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
index cca809f..aa9dae7 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
@@ -69,6 +69,7 @@ static std::string message_timestamp(time_t* unix_time)
 TsHsTextPlugin::TsHsTextPlugin(int id) :
     TsHsOutputPlugin(id),
     mFilename(""),
+    mFileSuffix(""),
     mFirstpass(true),
     mOverwrite(true),
     mTryLockFailures(0),
@@ -94,7 +95,7 @@ TsHsTextPlugin::~TsHsTextPlugin()
 void TsHsTextPlugin::configure(const TsHsPluginConfig& configData)
 {
     mEnabled   = configData.mEnabled;
-    mFilename  = configData.mPath;
+    mFilename  = configData.mPath + mFileSuffix;
     mOverwrite = configData.mOverwrite;
     mBlocking  = configData.mBlocking;
 }
@@ -119,7 +120,9 @@ bool TsHsTextPlugin::init(void)
         // file, otherwise overwrite the existing one.
         if (!mOverwrite)
         {
-            mFilename += tsHsFileTimestamp();
+            // The suffix is kept so that a reconfiguration on restart continues the same file.
+            mFileSuffix = tsHsFileTimestamp();
+            mFilename += mFileSuffix;
         }
 
         FILE* fp = fopen(mFilename.c_str(), "w");
diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.hh b/ms-utils/simulation/hs/TsHsTextPlugin.hh
index 73d4960..95d333b 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.hh
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.hh
@@ -69,6 +69,7 @@ protected:
     bool insertMessage(const std::string& message);
 
     std::string     mFilename;        // ** (--) Output file name
+    std::string     mFileSuffix;      // ** (--) Timestamp appended to the output file name when not overwriting
     bool            mFirstpass;       // ** (--) Used to determine when to create a new file
     bool            mOverwrite;       // ** (--) Overwrite file or use multiple files with timestamps
     int             mTryLockFailures; // ** (--) Number of times trylock failed to get the lock (== number of dropped messages)
-- 
2.43.0


From 92bf0408e2442a57d856b67a5cb1a51c64d3efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 07/56] fix: make H&S log timestamps safe against concurrent
 messages

---
 ms-utils/simulation/hs/TsHsConsolePlugin.cpp | 4 +++-
 ms-utils/simulation/hs/TsHsTextPlugin.cpp    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsConsolePlugin.cpp b/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
index 3499e68..b29ae37 100644
--- a/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
@@ -47,7 +47,9 @@ static std::string message_timestamp(time_t* unix_time)
    // An ISO-8601 compliant timestamp:
    //   YYYY-MM-DDThh:mm:ssTZD (eg 1997-07-16T19:20:30+01:00)
 
-   struct tm* t = gmtime(unix_time);
+   // Several threads can log at once, so the shared result of gmtime() can't be used.
+   struct tm result;
+   struct tm* t = gmtime_r(unix_time, &result);
 
    std::ostringstream timestamp;
    timestamp << std::right << setw(4) << setfill('0') << t->tm_year+1900 << "-";
diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.cpp b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
index aa9dae7..8fdeb2b 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
@@ -48,7 +48,9 @@ static std::string message_timestamp(time_t* unix_time)
    // An ISO-8601 compliant timestamp:
    //   YYYY-MM-DDThh:mm:ssTZD (eg 1997-07-16T19:20:30+01:00)
 
-   struct tm* t = gmtime(unix_time);
+   // Several threads can log at once, so the shared result of gmtime() can't be used.
+   struct tm result;
+   struct tm* t = gmtime_r(unix_time, &result);
 
    std::ostringstream timestamp;
    timestamp << std::right << setw(4) << setfill('0') << t->tm_year+1900 << "-";
-- 
2.43.0


From ea19173c106400adb163a9385755ce38edb64020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 08/56] fix: ignore a repeated lock() in GunnsMutexLock instead
 of deadlocking

---
 core/network/GunnsMutexLock.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/network/GunnsMutexLock.hh b/core/network/GunnsMutexLock.hh
index 45c6e07..01f1add 100644
--- a/core/network/GunnsMutexLock.hh
+++ b/core/network/GunnsMutexLock.hh
@@ -58,8 +58,11 @@ public:
 
     void lock()
     {
-        pthread_mutex_lock(&myMutex);
-        isLocked = true;
+        if(!isLocked)
+        {
+            pthread_mutex_lock(&myMutex);
+            isLocked = true;
+        }
     }
     
     void unlock() 
-- 
2.43.0


From 847f44572bfbeffaf5880b223d6a1106498a5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 09/56] fix: keep sending the supply pressure when a forced
 Supply role prevents a flip to Demand

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 1201 +++++++++---------
 1 file changed, 602 insertions(+), 599 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..2353572 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -1,599 +1,602 @@
-/**
-@file     Distributed2WayBusFluid.cpp
-@brief    Fluid Distributed 2-Way Bus Interface implementation
-
-@copyright Copyright 2025 United States Government as represented by the Administrator of the
-           National Aeronautics and Space Administration.  All Rights Reserved.
-
-LIBRARY DEPENDENCY:
-  ((interop/Distributed2WayBusBase.o))
-*/
-
-#include "Distributed2WayBusFluid.hh"
-#include <cfloat>
-#include <cmath>
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed fluid mixture data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData::FluidDistributedMixtureData()
-    :
-    mEnergy(0.0),
-    mMoleFractions(0),
-    mTcMoleFractions(0),
-    mNumFluid(0),
-    mNumTc(0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed fluid mixture data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData::~FluidDistributedMixtureData()
-{
-    if (mTcMoleFractions) {
-        delete [] mTcMoleFractions;
-    }
-    if (mMoleFractions) {
-        delete [] mMoleFractions;
-    }
-}
-
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.  This is a
-///           'deep' copy, as this object's mixture arrays remain separate from that's.  We do not
-///           assume the objects have the same sized mixture arrays, so we only assign up to the
-///           index of the smaller array.  If this object's array is larger than that's, we do not
-///           assign the indexes in this for which that doesn't have indexes.  Since this is a deep
-///           copy, the mNum array size variables are not assigned because they must reflect our
-///           arrays, which are not resized.  This doesn't assume the objects have been initialized,
-///           so we avoid setting or referencing mixture arrays that haven't been allocated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData& FluidDistributedMixtureData::operator =(const FluidDistributedMixtureData& that)
-{
-    if (this != &that) {
-        mEnergy = that.mEnergy;
-        for (unsigned int i=0; i<std::min(mNumFluid, that.mNumFluid); ++i) {
-            mMoleFractions[i] = that.mMoleFractions[i];
-        }
-        for (unsigned int i=0; i<std::min(mNumTc, that.mNumTc); ++i) {
-            mTcMoleFractions[i] = that.mTcMoleFractions[i];
-        }
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] nBulk   (--) Number of bulk fluid constituents.
-/// @param[in] nTc     (--) Number of trace compounds.
-/// @param[in] name    (--) Not used.
-///
-/// @details  Allocates arrays for bulk fluid and trace compounds mole fractions.  This function is
-///           virtual and the name argument exists to support derived types needing to allocate the
-///           mixture arrays using a specific sim memory manager.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::initialize(const unsigned int nBulk,
-                                                  const unsigned int nTc,
-                                                  const std::string& name __attribute__((unused)))
-{
-    mNumFluid       = nBulk;
-    mNumTc          = nTc;
-
-    /// - Delete & re-allocate fractions arrays in case of repeated calls to this function.
-    if (mMoleFractions) {
-        delete [] mMoleFractions;
-        mMoleFractions = 0;
-    }
-    if (nBulk > 0) {
-        mMoleFractions = new double[nBulk];
-        for (unsigned int i=0; i<nBulk; ++i) {
-            mMoleFractions[i] = 0.0;
-        }
-    }
-    if (mTcMoleFractions) {
-        delete [] mTcMoleFractions;
-        mTcMoleFractions = 0;
-    }
-    if (nTc > 0) {
-        mTcMoleFractions = new double[nTc];
-        for (unsigned int i=0; i<nTc; ++i) {
-            mTcMoleFractions[i] = 0.0;
-        }
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fractions (--) Array of bulk fluid mole fraction values to read from.
-/// @param[in] size      (--) Size of the given fractions array.
-///
-/// @details  Sets this object's bulk fluid mole fractions equal to the given values.  The given
-///           array can be larger or smaller than our internal array.  If our array is larger, then
-///           the remaining values in the our array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::setMoleFractions(const double* fractions, const unsigned int size)
-{
-    const unsigned int smallerSize = std::min(mNumFluid, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        mMoleFractions[i] = fractions[i];
-    }
-    for (unsigned int i=smallerSize; i<mNumFluid; ++i) {
-        mMoleFractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fractions (--) Array of trace compound mole fractions to read from.
-/// @param[in] size      (--) Size of the given fractions array.
-///
-/// @details  Sets this object's trace compound mole fractions equal to the given values.  The given
-///           array can be larger or smaller than our internal array.  If our array is larger, then
-///           the remaining values in the our array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::setTcMoleFractions(const double* fractions, const unsigned int size)
-{
-    const unsigned int smallerSize = std::min(mNumTc, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        mTcMoleFractions[i] = fractions[i];
-    }
-    for (unsigned int i=smallerSize; i<mNumTc; ++i) {
-        mTcMoleFractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fractions (--) Array of bulk fluid mole fractions to write to.
-/// @param[in]  size      (--) Size of the given fractions array.
-///
-/// @details  Sets the given bulk fluid mole fractions equal to this object's values.  The given
-///           array can be larger or smaller than our internal array.  If our array is smaller, then
-///           the remaining values in the given array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::getMoleFractions(double* fractions, const unsigned int size) const
-{
-    const unsigned int smallerSize = std::min(mNumFluid, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        fractions[i] = mMoleFractions[i];
-    }
-    for (unsigned int i=smallerSize; i<size; ++i) {
-        fractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fractions (--) Array of trace compound mole fractions to write to.
-/// @param[in]  size      (--) Size of the given fractions array.
-///
-/// @details  Sets the given builk trace compound fractions to this interface's values.  The given
-///           array can be larger or smaller than our internal array.  If our array is smaller, then
-///           the remaining values in the given array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::getTcMoleFractions(double* fractions, const unsigned int size) const
-{
-    const unsigned int smallerSize = std::min(mNumTc, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        fractions[i] = mTcMoleFractions[i];
-    }
-    for (unsigned int i=smallerSize; i<size; ++i) {
-        fractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed fluid state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState::Distributed2WayBusFluidFluidState()
-    :
-    FluidDistributedMixtureData(),
-    mPressure(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed fluid state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState::~Distributed2WayBusFluidFluidState()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState& Distributed2WayBusFluidFluidState::operator =(const Distributed2WayBusFluidFluidState& that)
-{
-    if (this != &that) {
-        FluidDistributedMixtureData::operator = (that);
-        mPressure = that.mPressure;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed flow state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState::Distributed2WayBusFluidFlowState()
-    :
-    FluidDistributedMixtureData(),
-    mFlowRate(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed flow state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState::~Distributed2WayBusFluidFlowState()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState& Distributed2WayBusFluidFlowState::operator =(const Distributed2WayBusFluidFlowState& that)
-{
-    if (this != &that) {
-        FluidDistributedMixtureData::operator = (that);
-        mFlowRate = that.mFlowRate;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this Fluid Distributed 2-Way Bus interface data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData::Distributed2WayBusFluidInterfaceData()
-    :
-    FluidDistributedMixtureData(),
-    Distributed2WayBusBaseInterfaceData(),
-    mCapacitance(0.0),
-    mSource(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Fluid Distributed 2-Way Bus interface data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData::~Distributed2WayBusFluidInterfaceData()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData& Distributed2WayBusFluidInterfaceData::operator =(const Distributed2WayBusFluidInterfaceData& that)
-{
-    if (this != &that) {
-        Distributed2WayBusBaseInterfaceData::operator = (that);
-        FluidDistributedMixtureData::operator = (that);
-        mCapacitance = that.mCapacitance;
-        mSource      = that.mSource;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @returns  (--)  True if all data validation checks passed.
-///
-/// @details  Checks for all of the following conditions to be met:  Frame count > 0, energy > 0,
-///           capacitance >= 0, pressure >= 0 (only in Supply mode), and all mixture fractions >= 0.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluidInterfaceData::hasValidData() const
-{
-    if (mFrameCount < 1 or mEnergy <= 0.0 or mCapacitance < 0.0 or (mSource < 0.0 and not mDemandMode)) {
-        return false;
-    }
-    for (unsigned int i=0; i<mNumFluid; ++i) {
-        if (mMoleFractions[i] < 0.0) {
-            return false;
-        }
-    }
-    for (unsigned int i=0; i<mNumTc; ++i) {
-        if (mTcMoleFractions[i] < 0.0) {
-            return false;
-        }
-    }
-    return true;
-}
-
-/// @details  Upper limit of ratio of Supply-side capacitance over Demand-side capacitance, above
-///           which the stability filter imposes no limit on Demand-side flow rate.
-const double Distributed2WayBusFluid::mModingCapacitanceRatio = 1.25;
-/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
-const double Distributed2WayBusFluid::mDemandFilterConstA = 1.5;
-/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
-const double Distributed2WayBusFluid::mDemandFilterConstB = 0.75;
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluid::Distributed2WayBusFluid()
-    :
-    Distributed2WayBusBase(&mInData, &mOutData),
-    mInData                (),
-    mOutData               (),
-    mDemandLimitGain       (0.0),
-    mDemandLimitFlowRate   (0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluid::~Distributed2WayBusFluid()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] isPairMaster (--) True if this is the master side of the interface, for tie-breaking.
-/// @param[in] nIfBulk      (--) Number of bulk fluid constituents in the interface data.
-/// @param[in] nIfTc        (--) Number of trace compounds in the interface data.
-///
-/// @details  Initializes this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::initialize(const bool         isPairMaster,
-                                              const unsigned int nIfBulk,
-                                              const unsigned int nIfTc)
-{
-    /// - Initialize the interface data objects so they can allocate memory.
-    mInData .initialize(nIfBulk, nIfTc);
-    mOutData.initialize(nIfBulk, nIfTc);
-
-    /// - Initialize remaining state variables.
-    Distributed2WayBusBase::initialize(isPairMaster);
-    mDemandLimitGain     = 0.0;
-    mDemandLimitFlowRate = 0.0;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fluid (--) The fluid state in the interface volume.
-///
-/// @details  When this in the Supply role, this copies the given fluid state, describing the fluid
-///           state in the interface volume, into the outgoing interface data for transmission to
-///           the other side.
-///
-/// @note  This should only be called when this interface is in the Supply role, and this will push
-///        a warning notification if called in the Demand role.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::setFluidState(const Distributed2WayBusFluidFluidState& fluid)
-{
-    if (isInDemandRole()) {
-        pushNotification(Distributed2WayBusNotification::WARN,
-                "setFluidState was called when in the Demand role.");
-    } else {
-        mOutData.mSource = fluid.mPressure;
-        mOutData.mEnergy = fluid.mEnergy;
-        mOutData.setMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
-        mOutData.setTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fluid (--) The fluid state in the interface volume.
-///
-/// @returns  bool (--) True if the supplied fluid state object was updated, otherwise false.
-///
-/// @details  When in the Demand role, this copies the received interface volume fluid state from
-///           the other side of the interface into the supplied state object.  The local model
-///           should drive their interface volume to this fluid state boundary condition.
-///
-/// @note  The supplied fluid state object is not updated if this interface is not in the Demand
-///        role, or if Supply role data has not been received from the other side, which can happen
-///        briefly during run start or role swaps.  The returned bool value indicates whether the
-///        supplied fluid state object was updated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluid::getFluidState(Distributed2WayBusFluidFluidState& fluid) const
-{
-    if (isInDemandRole() and mInData.hasValidData() and not mInData.mDemandMode) {
-        fluid.mPressure = mInData.mSource;
-        fluid.mEnergy = mInData.mEnergy;
-        mInData.getMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
-        mInData.getTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
-        return true;
-    }
-    return false;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] flow (--) The flow state to/from the interface volume.
-///
-/// @details  When this in the Demand role, this copies the given flow state, describing the flow
-///           state to or from the interface volume, into the outgoing interface data for
-///           transmission to the other side.  By convention, positive flow rate values are for flow
-///           pulled from the interface volume into the local Demand-side model, i.e. flow from the
-///           Supply side to the Demand side, and negative flow rates are flow from the Demand side
-///           to the Supply side.
-///
-/// @note  This should only be called when this interface is in the Supply role, and this will push
-///        a warning notification if called in the Demand role.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::setFlowState(const Distributed2WayBusFluidFlowState& flow)
-{
-    if (not isInDemandRole()) {
-        pushNotification(Distributed2WayBusNotification::WARN,
-                "setFlowState was called when in the Supply role.");
-    } else {
-        mOutData.mSource = flow.mFlowRate;
-        mOutData.mEnergy = flow.mEnergy;
-        mOutData.setMoleFractions(flow.mMoleFractions, flow.getNumFluid());
-        mOutData.setTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] flow (--) The flow state to/from the interface volume.
-///
-/// @returns  bool (--) True if the supplied flow state object was updated, otherwise false.
-///
-/// @details  When in the Supply role, this copies the received interface flow state from the other
-///           side of the interface into the supplied flow state object.  The local model should
-///           apply this flow to or from their interface volume model.  By convention, positive flow
-///           rate values are for flow pulled from the interface volume into the local Demand-side
-///           model, i.e. flow from the Supply side to the Demand side, and negative flow rates are
-///           flow from the Demand side to the Supply side.  This means that the local Supply volume
-///           model should subtract the integral of the given flow rate from its fluid mass.
-///
-/// @note  The supplied flow state object is not updated if this interface is not in the Supply
-///        role, or if Demand role data has not been received from the other side, which can happen
-///        briefly during run start or role swaps.  The returned bool value indicates whether the
-///        supplied flow state object was updated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluid::getFlowState(Distributed2WayBusFluidFlowState& flow) const
-{
-    if (not isInDemandRole() and mInData.hasValidData() and mInData.mDemandMode) {
-        flow.mFlowRate = mInData.mSource;
-        flow.mEnergy   = mInData.mEnergy;
-        mInData.getMoleFractions(flow.mMoleFractions, flow.getNumFluid());
-        mInData.getTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
-        return true;
-    }
-    return false;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes incoming data from the other side of the interface: checks for role swaps,
-///           and updates the frame counters and loop latency measurement.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::processInputs()
-{
-    /// - Update frame counters and loop latency measurement.
-    updateFrameCounts();
-
-    /// - Mode changes and associated node volume update in response to incoming data.
-    flipModesOnInput();
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] timestep           (s)  Model integration time step.
-/// @param[in] demandSidePressure (Pa) Model pressure adjacent to the interface volume.
-///
-/// @details  Calculates and returns the maximum limit on molar flow rate between the Demand-side
-///           model and the interface volume, based on data loop latency, and relative pressures and
-///           capacitances of the interfacing sides.  When the Demand-side model limits its flow
-///           rate to/from the interface volume to this limit, the interface will be stable.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-double Distributed2WayBusFluid::computeDemandLimit(const double timestep,
-                                                        const double demandSidePressure)
-{
-    double gain      = 0.0;
-    double ndotLimit = 0.0;
-    if (isInDemandRole() and not mInData.mDemandMode) {
-        /// - Limit inputs to avoid divide-by-zero.
-        if (timestep > DBL_EPSILON and mOutData.mCapacitance > DBL_EPSILON and mInData.mCapacitance > DBL_EPSILON) {
-            /// - Limited exponent for the lag gain:
-            const int exponent = std::min(100, std::max(1, mLoopLatency));
-            /// - Stability filter 'lag gain' imposes limit on demand flow as latency increases.
-            const double lagGain = std::min(1.0, mDemandFilterConstA * std::pow(mDemandFilterConstB, exponent));
-            /// - Limited capacitance ratio for the gain:
-            const double csOverCd = std::min(mModingCapacitanceRatio, std::max(1.0, mInData.mCapacitance / mOutData.mCapacitance));
-            /// - Stability filter 'gain' further limits the demand flow as Supply-side capacitance
-            ///   approaches Demand-side capacitance.
-            gain = lagGain + (1.0 - lagGain) * (csOverCd - 1.0) * 4.0;
-            /// - Demand flow rate limit.
-            ndotLimit = gain * std::fabs(demandSidePressure - mInData.mSource)
-                      / (timestep * (1.0 / mOutData.mCapacitance + 1.0 / mInData.mCapacitance));
-        }
-    }
-    mDemandLimitGain     = gain;
-    mDemandLimitFlowRate = ndotLimit;
-    return mDemandLimitFlowRate;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Handles mode flips in response to incoming data, and the initial mode flip at run
-///           start.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipModesOnInput()
-{
-    /// - Force mode swap based on the mode force flags.
-    if (DEMAND == mForcedRole and not isInDemandRole()) {
-        flipToDemandMode();
-    } else if (SUPPLY == mForcedRole and isInDemandRole()) {
-        flipToSupplyMode();
-    } else if (mInData.hasValidData()) {
-        /// - If in demand mode and the incoming data is also demand, then the other side has
-        ///   initialized the demand/supply swap, so we flip to supply.
-        if (mOutData.mDemandMode and mInData.mDemandMode and not mInDataLastDemandMode) {
-            flipToSupplyMode();
-        } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
-            if ( (mOutData.mCapacitance < mInData.mCapacitance) or
-                    (mIsPairMaster and mOutData.mCapacitance == mInData.mCapacitance) ) {
-                /// - If in supply mode and the incoming data is also supply, then this is the start
-                ///   of the run and the side with the smaller capacitance switches to demand mode,
-                ///   and the master side is the tie-breaker.
-                flipToDemandMode();
-            }
-        }
-        mInDataLastDemandMode = mInData.mDemandMode;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Flips from supply to demand mode whenever the supply side capacitance drops below
-///           some fraction of the demand side's capacitance.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipModesOnCapacitance()
-{
-    /// - We do not check until we've been in supply mode for at least one full lag cycle.  This
-    ///   prevents unwanted extra mode flips during large transients.
-    if (mFramesSinceFlip > mLoopLatency and
-            mOutData.mCapacitance * mModingCapacitanceRatio < mInData.mCapacitance) {
-        flipToDemandMode();
-        /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
-        ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
-        ///   pass in demand mode.
-        mOutData.mSource = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes flipping to Demand mode.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipToDemandMode()
-{
-    if (SUPPLY != mForcedRole) {
-        mOutData.mDemandMode = true;
-        mFramesSinceFlip = 0;
-        pushNotification(Distributed2WayBusNotification::INFO, "switched to Demand mode.");
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes flipping to Supply mode.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipToSupplyMode()
-{
-    if (DEMAND != mForcedRole) {
-        mOutData.mDemandMode = false;
-        mFramesSinceFlip = 0;
-        pushNotification(Distributed2WayBusNotification::INFO, "switched to Supply mode.");
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Final updates for output data before transmission to the other side.  Sets outputs
-///           capacitance to the given value.  Flips from Supply to Demand role if the new
-///           capacitance is low enough, and updates the count of frames since the last mode flip.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::processOutputs(const double capacitance)
-{
-    mOutData.mCapacitance = capacitance;
-    if (not isInDemandRole()) {
-        flipModesOnCapacitance();
-    }
-}
+/**
+@file     Distributed2WayBusFluid.cpp
+@brief    Fluid Distributed 2-Way Bus Interface implementation
+
+@copyright Copyright 2025 United States Government as represented by the Administrator of the
+           National Aeronautics and Space Administration.  All Rights Reserved.
+
+LIBRARY DEPENDENCY:
+  ((interop/Distributed2WayBusBase.o))
+*/
+
+#include "Distributed2WayBusFluid.hh"
+#include <cfloat>
+#include <cmath>
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed fluid mixture data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData::FluidDistributedMixtureData()
+    :
+    mEnergy(0.0),
+    mMoleFractions(0),
+    mTcMoleFractions(0),
+    mNumFluid(0),
+    mNumTc(0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed fluid mixture data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData::~FluidDistributedMixtureData()
+{
+    if (mTcMoleFractions) {
+        delete [] mTcMoleFractions;
+    }
+    if (mMoleFractions) {
+        delete [] mMoleFractions;
+    }
+}
+
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.  This is a
+///           'deep' copy, as this object's mixture arrays remain separate from that's.  We do not
+///           assume the objects have the same sized mixture arrays, so we only assign up to the
+///           index of the smaller array.  If this object's array is larger than that's, we do not
+///           assign the indexes in this for which that doesn't have indexes.  Since this is a deep
+///           copy, the mNum array size variables are not assigned because they must reflect our
+///           arrays, which are not resized.  This doesn't assume the objects have been initialized,
+///           so we avoid setting or referencing mixture arrays that haven't been allocated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData& FluidDistributedMixtureData::operator =(const FluidDistributedMixtureData& that)
+{
+    if (this != &that) {
+        mEnergy = that.mEnergy;
+        for (unsigned int i=0; i<std::min(mNumFluid, that.mNumFluid); ++i) {
+            mMoleFractions[i] = that.mMoleFractions[i];
+        }
+        for (unsigned int i=0; i<std::min(mNumTc, that.mNumTc); ++i) {
+            mTcMoleFractions[i] = that.mTcMoleFractions[i];
+        }
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] nBulk   (--) Number of bulk fluid constituents.
+/// @param[in] nTc     (--) Number of trace compounds.
+/// @param[in] name    (--) Not used.
+///
+/// @details  Allocates arrays for bulk fluid and trace compounds mole fractions.  This function is
+///           virtual and the name argument exists to support derived types needing to allocate the
+///           mixture arrays using a specific sim memory manager.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::initialize(const unsigned int nBulk,
+                                                  const unsigned int nTc,
+                                                  const std::string& name __attribute__((unused)))
+{
+    mNumFluid       = nBulk;
+    mNumTc          = nTc;
+
+    /// - Delete & re-allocate fractions arrays in case of repeated calls to this function.
+    if (mMoleFractions) {
+        delete [] mMoleFractions;
+        mMoleFractions = 0;
+    }
+    if (nBulk > 0) {
+        mMoleFractions = new double[nBulk];
+        for (unsigned int i=0; i<nBulk; ++i) {
+            mMoleFractions[i] = 0.0;
+        }
+    }
+    if (mTcMoleFractions) {
+        delete [] mTcMoleFractions;
+        mTcMoleFractions = 0;
+    }
+    if (nTc > 0) {
+        mTcMoleFractions = new double[nTc];
+        for (unsigned int i=0; i<nTc; ++i) {
+            mTcMoleFractions[i] = 0.0;
+        }
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fractions (--) Array of bulk fluid mole fraction values to read from.
+/// @param[in] size      (--) Size of the given fractions array.
+///
+/// @details  Sets this object's bulk fluid mole fractions equal to the given values.  The given
+///           array can be larger or smaller than our internal array.  If our array is larger, then
+///           the remaining values in the our array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::setMoleFractions(const double* fractions, const unsigned int size)
+{
+    const unsigned int smallerSize = std::min(mNumFluid, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        mMoleFractions[i] = fractions[i];
+    }
+    for (unsigned int i=smallerSize; i<mNumFluid; ++i) {
+        mMoleFractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fractions (--) Array of trace compound mole fractions to read from.
+/// @param[in] size      (--) Size of the given fractions array.
+///
+/// @details  Sets this object's trace compound mole fractions equal to the given values.  The given
+///           array can be larger or smaller than our internal array.  If our array is larger, then
+///           the remaining values in the our array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::setTcMoleFractions(const double* fractions, const unsigned int size)
+{
+    const unsigned int smallerSize = std::min(mNumTc, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        mTcMoleFractions[i] = fractions[i];
+    }
+    for (unsigned int i=smallerSize; i<mNumTc; ++i) {
+        mTcMoleFractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fractions (--) Array of bulk fluid mole fractions to write to.
+/// @param[in]  size      (--) Size of the given fractions array.
+///
+/// @details  Sets the given bulk fluid mole fractions equal to this object's values.  The given
+///           array can be larger or smaller than our internal array.  If our array is smaller, then
+///           the remaining values in the given array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::getMoleFractions(double* fractions, const unsigned int size) const
+{
+    const unsigned int smallerSize = std::min(mNumFluid, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        fractions[i] = mMoleFractions[i];
+    }
+    for (unsigned int i=smallerSize; i<size; ++i) {
+        fractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fractions (--) Array of trace compound mole fractions to write to.
+/// @param[in]  size      (--) Size of the given fractions array.
+///
+/// @details  Sets the given builk trace compound fractions to this interface's values.  The given
+///           array can be larger or smaller than our internal array.  If our array is smaller, then
+///           the remaining values in the given array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::getTcMoleFractions(double* fractions, const unsigned int size) const
+{
+    const unsigned int smallerSize = std::min(mNumTc, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        fractions[i] = mTcMoleFractions[i];
+    }
+    for (unsigned int i=smallerSize; i<size; ++i) {
+        fractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed fluid state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState::Distributed2WayBusFluidFluidState()
+    :
+    FluidDistributedMixtureData(),
+    mPressure(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed fluid state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState::~Distributed2WayBusFluidFluidState()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState& Distributed2WayBusFluidFluidState::operator =(const Distributed2WayBusFluidFluidState& that)
+{
+    if (this != &that) {
+        FluidDistributedMixtureData::operator = (that);
+        mPressure = that.mPressure;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed flow state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState::Distributed2WayBusFluidFlowState()
+    :
+    FluidDistributedMixtureData(),
+    mFlowRate(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed flow state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState::~Distributed2WayBusFluidFlowState()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState& Distributed2WayBusFluidFlowState::operator =(const Distributed2WayBusFluidFlowState& that)
+{
+    if (this != &that) {
+        FluidDistributedMixtureData::operator = (that);
+        mFlowRate = that.mFlowRate;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this Fluid Distributed 2-Way Bus interface data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData::Distributed2WayBusFluidInterfaceData()
+    :
+    FluidDistributedMixtureData(),
+    Distributed2WayBusBaseInterfaceData(),
+    mCapacitance(0.0),
+    mSource(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Fluid Distributed 2-Way Bus interface data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData::~Distributed2WayBusFluidInterfaceData()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData& Distributed2WayBusFluidInterfaceData::operator =(const Distributed2WayBusFluidInterfaceData& that)
+{
+    if (this != &that) {
+        Distributed2WayBusBaseInterfaceData::operator = (that);
+        FluidDistributedMixtureData::operator = (that);
+        mCapacitance = that.mCapacitance;
+        mSource      = that.mSource;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  (--)  True if all data validation checks passed.
+///
+/// @details  Checks for all of the following conditions to be met:  Frame count > 0, energy > 0,
+///           capacitance >= 0, pressure >= 0 (only in Supply mode), and all mixture fractions >= 0.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluidInterfaceData::hasValidData() const
+{
+    if (mFrameCount < 1 or mEnergy <= 0.0 or mCapacitance < 0.0 or (mSource < 0.0 and not mDemandMode)) {
+        return false;
+    }
+    for (unsigned int i=0; i<mNumFluid; ++i) {
+        if (mMoleFractions[i] < 0.0) {
+            return false;
+        }
+    }
+    for (unsigned int i=0; i<mNumTc; ++i) {
+        if (mTcMoleFractions[i] < 0.0) {
+            return false;
+        }
+    }
+    return true;
+}
+
+/// @details  Upper limit of ratio of Supply-side capacitance over Demand-side capacitance, above
+///           which the stability filter imposes no limit on Demand-side flow rate.
+const double Distributed2WayBusFluid::mModingCapacitanceRatio = 1.25;
+/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
+const double Distributed2WayBusFluid::mDemandFilterConstA = 1.5;
+/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
+const double Distributed2WayBusFluid::mDemandFilterConstB = 0.75;
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluid::Distributed2WayBusFluid()
+    :
+    Distributed2WayBusBase(&mInData, &mOutData),
+    mInData                (),
+    mOutData               (),
+    mDemandLimitGain       (0.0),
+    mDemandLimitFlowRate   (0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluid::~Distributed2WayBusFluid()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] isPairMaster (--) True if this is the master side of the interface, for tie-breaking.
+/// @param[in] nIfBulk      (--) Number of bulk fluid constituents in the interface data.
+/// @param[in] nIfTc        (--) Number of trace compounds in the interface data.
+///
+/// @details  Initializes this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::initialize(const bool         isPairMaster,
+                                              const unsigned int nIfBulk,
+                                              const unsigned int nIfTc)
+{
+    /// - Initialize the interface data objects so they can allocate memory.
+    mInData .initialize(nIfBulk, nIfTc);
+    mOutData.initialize(nIfBulk, nIfTc);
+
+    /// - Initialize remaining state variables.
+    Distributed2WayBusBase::initialize(isPairMaster);
+    mDemandLimitGain     = 0.0;
+    mDemandLimitFlowRate = 0.0;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fluid (--) The fluid state in the interface volume.
+///
+/// @details  When this in the Supply role, this copies the given fluid state, describing the fluid
+///           state in the interface volume, into the outgoing interface data for transmission to
+///           the other side.
+///
+/// @note  This should only be called when this interface is in the Supply role, and this will push
+///        a warning notification if called in the Demand role.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::setFluidState(const Distributed2WayBusFluidFluidState& fluid)
+{
+    if (isInDemandRole()) {
+        pushNotification(Distributed2WayBusNotification::WARN,
+                "setFluidState was called when in the Demand role.");
+    } else {
+        mOutData.mSource = fluid.mPressure;
+        mOutData.mEnergy = fluid.mEnergy;
+        mOutData.setMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
+        mOutData.setTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fluid (--) The fluid state in the interface volume.
+///
+/// @returns  bool (--) True if the supplied fluid state object was updated, otherwise false.
+///
+/// @details  When in the Demand role, this copies the received interface volume fluid state from
+///           the other side of the interface into the supplied state object.  The local model
+///           should drive their interface volume to this fluid state boundary condition.
+///
+/// @note  The supplied fluid state object is not updated if this interface is not in the Demand
+///        role, or if Supply role data has not been received from the other side, which can happen
+///        briefly during run start or role swaps.  The returned bool value indicates whether the
+///        supplied fluid state object was updated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluid::getFluidState(Distributed2WayBusFluidFluidState& fluid) const
+{
+    if (isInDemandRole() and mInData.hasValidData() and not mInData.mDemandMode) {
+        fluid.mPressure = mInData.mSource;
+        fluid.mEnergy = mInData.mEnergy;
+        mInData.getMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
+        mInData.getTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
+        return true;
+    }
+    return false;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] flow (--) The flow state to/from the interface volume.
+///
+/// @details  When this in the Demand role, this copies the given flow state, describing the flow
+///           state to or from the interface volume, into the outgoing interface data for
+///           transmission to the other side.  By convention, positive flow rate values are for flow
+///           pulled from the interface volume into the local Demand-side model, i.e. flow from the
+///           Supply side to the Demand side, and negative flow rates are flow from the Demand side
+///           to the Supply side.
+///
+/// @note  This should only be called when this interface is in the Supply role, and this will push
+///        a warning notification if called in the Demand role.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::setFlowState(const Distributed2WayBusFluidFlowState& flow)
+{
+    if (not isInDemandRole()) {
+        pushNotification(Distributed2WayBusNotification::WARN,
+                "setFlowState was called when in the Supply role.");
+    } else {
+        mOutData.mSource = flow.mFlowRate;
+        mOutData.mEnergy = flow.mEnergy;
+        mOutData.setMoleFractions(flow.mMoleFractions, flow.getNumFluid());
+        mOutData.setTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] flow (--) The flow state to/from the interface volume.
+///
+/// @returns  bool (--) True if the supplied flow state object was updated, otherwise false.
+///
+/// @details  When in the Supply role, this copies the received interface flow state from the other
+///           side of the interface into the supplied flow state object.  The local model should
+///           apply this flow to or from their interface volume model.  By convention, positive flow
+///           rate values are for flow pulled from the interface volume into the local Demand-side
+///           model, i.e. flow from the Supply side to the Demand side, and negative flow rates are
+///           flow from the Demand side to the Supply side.  This means that the local Supply volume
+///           model should subtract the integral of the given flow rate from its fluid mass.
+///
+/// @note  The supplied flow state object is not updated if this interface is not in the Supply
+///        role, or if Demand role data has not been received from the other side, which can happen
+///        briefly during run start or role swaps.  The returned bool value indicates whether the
+///        supplied flow state object was updated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluid::getFlowState(Distributed2WayBusFluidFlowState& flow) const
+{
+    if (not isInDemandRole() and mInData.hasValidData() and mInData.mDemandMode) {
+        flow.mFlowRate = mInData.mSource;
+        flow.mEnergy   = mInData.mEnergy;
+        mInData.getMoleFractions(flow.mMoleFractions, flow.getNumFluid());
+        mInData.getTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
+        return true;
+    }
+    return false;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes incoming data from the other side of the interface: checks for role swaps,
+///           and updates the frame counters and loop latency measurement.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::processInputs()
+{
+    /// - Update frame counters and loop latency measurement.
+    updateFrameCounts();
+
+    /// - Mode changes and associated node volume update in response to incoming data.
+    flipModesOnInput();
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] timestep           (s)  Model integration time step.
+/// @param[in] demandSidePressure (Pa) Model pressure adjacent to the interface volume.
+///
+/// @details  Calculates and returns the maximum limit on molar flow rate between the Demand-side
+///           model and the interface volume, based on data loop latency, and relative pressures and
+///           capacitances of the interfacing sides.  When the Demand-side model limits its flow
+///           rate to/from the interface volume to this limit, the interface will be stable.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+double Distributed2WayBusFluid::computeDemandLimit(const double timestep,
+                                                        const double demandSidePressure)
+{
+    double gain      = 0.0;
+    double ndotLimit = 0.0;
+    if (isInDemandRole() and not mInData.mDemandMode) {
+        /// - Limit inputs to avoid divide-by-zero.
+        if (timestep > DBL_EPSILON and mOutData.mCapacitance > DBL_EPSILON and mInData.mCapacitance > DBL_EPSILON) {
+            /// - Limited exponent for the lag gain:
+            const int exponent = std::min(100, std::max(1, mLoopLatency));
+            /// - Stability filter 'lag gain' imposes limit on demand flow as latency increases.
+            const double lagGain = std::min(1.0, mDemandFilterConstA * std::pow(mDemandFilterConstB, exponent));
+            /// - Limited capacitance ratio for the gain:
+            const double csOverCd = std::min(mModingCapacitanceRatio, std::max(1.0, mInData.mCapacitance / mOutData.mCapacitance));
+            /// - Stability filter 'gain' further limits the demand flow as Supply-side capacitance
+            ///   approaches Demand-side capacitance.
+            gain = lagGain + (1.0 - lagGain) * (csOverCd - 1.0) * 4.0;
+            /// - Demand flow rate limit.
+            ndotLimit = gain * std::fabs(demandSidePressure - mInData.mSource)
+                      / (timestep * (1.0 / mOutData.mCapacitance + 1.0 / mInData.mCapacitance));
+        }
+    }
+    mDemandLimitGain     = gain;
+    mDemandLimitFlowRate = ndotLimit;
+    return mDemandLimitFlowRate;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Handles mode flips in response to incoming data, and the initial mode flip at run
+///           start.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipModesOnInput()
+{
+    /// - Force mode swap based on the mode force flags.
+    if (DEMAND == mForcedRole and not isInDemandRole()) {
+        flipToDemandMode();
+    } else if (SUPPLY == mForcedRole and isInDemandRole()) {
+        flipToSupplyMode();
+    } else if (mInData.hasValidData()) {
+        /// - If in demand mode and the incoming data is also demand, then the other side has
+        ///   initialized the demand/supply swap, so we flip to supply.
+        if (mOutData.mDemandMode and mInData.mDemandMode and not mInDataLastDemandMode) {
+            flipToSupplyMode();
+        } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
+            if ( (mOutData.mCapacitance < mInData.mCapacitance) or
+                    (mIsPairMaster and mOutData.mCapacitance == mInData.mCapacitance) ) {
+                /// - If in supply mode and the incoming data is also supply, then this is the start
+                ///   of the run and the side with the smaller capacitance switches to demand mode,
+                ///   and the master side is the tie-breaker.
+                flipToDemandMode();
+            }
+        }
+        mInDataLastDemandMode = mInData.mDemandMode;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Flips from supply to demand mode whenever the supply side capacitance drops below
+///           some fraction of the demand side's capacitance.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipModesOnCapacitance()
+{
+    /// - We do not check until we've been in supply mode for at least one full lag cycle.  This
+    ///   prevents unwanted extra mode flips during large transients.
+    if (mFramesSinceFlip > mLoopLatency and
+            mOutData.mCapacitance * mModingCapacitanceRatio < mInData.mCapacitance) {
+        flipToDemandMode();
+        /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
+        ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
+        ///   pass in demand mode.  If a forced Supply role prevented the flip, then the other side
+        ///   still needs our supply pressure.
+        if (isInDemandRole()) {
+            mOutData.mSource = 0.0;
+        }
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes flipping to Demand mode.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipToDemandMode()
+{
+    if (SUPPLY != mForcedRole) {
+        mOutData.mDemandMode = true;
+        mFramesSinceFlip = 0;
+        pushNotification(Distributed2WayBusNotification::INFO, "switched to Demand mode.");
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes flipping to Supply mode.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipToSupplyMode()
+{
+    if (DEMAND != mForcedRole) {
+        mOutData.mDemandMode = false;
+        mFramesSinceFlip = 0;
+        pushNotification(Distributed2WayBusNotification::INFO, "switched to Supply mode.");
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Final updates for output data before transmission to the other side.  Sets outputs
+///           capacitance to the given value.  Flips from Supply to Demand role if the new
+///           capacitance is low enough, and updates the count of frames since the last mode flip.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::processOutputs(const double capacitance)
+{
+    mOutData.mCapacitance = capacitance;
+    if (not isInDemandRole()) {
+        flipModesOnCapacitance();
+    }
+}
-- 
2.43.0


From 054a9756310941266c3040d3e5ffa5bbe286d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 10/56] fix: re-negotiate the fluid bus roles when both sides
 are stuck in Demand

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index 2353572..aa5afa0 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -527,8 +527,13 @@ void Distributed2WayBusFluid::flipModesOnInput()
         flipToSupplyMode();
     } else if (mInData.hasValidData()) {
         /// - If in demand mode and the incoming data is also demand, then the other side has
-        ///   initialized the demand/supply swap, so we flip to supply.
-        if (mOutData.mDemandMode and mInData.mDemandMode and not mInDataLastDemandMode) {
+        ///   initialized the demand/supply swap, so we flip to supply.  Normally we only respond to
+        ///   the other side's change to demand.  But if the other side is still in demand more than
+        ///   one full lag cycle after our own last flip, then both sides are stuck in demand, which
+        ///   can happen when a side has been restarted, a force flag was released, or data was
+        ///   invalid during the swap.  In this case we flip to supply to re-start the negotiation.
+        if (mOutData.mDemandMode and mInData.mDemandMode and
+                (not mInDataLastDemandMode or mFramesSinceFlip > mLoopLatency)) {
             flipToSupplyMode();
         } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
             if ( (mOutData.mCapacitance < mInData.mCapacitance) or
-- 
2.43.0


From 5ff92426abab277eda37bc00c41c0a3c4313c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 11/56] fix: let the non-primary side yield when both sides of
 the electrical bus are stuck in Supply

---
 ms-utils/interop/Distributed2WayBusElect.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ms-utils/interop/Distributed2WayBusElect.cpp b/ms-utils/interop/Distributed2WayBusElect.cpp
index a2a607a..87f868e 100755
--- a/ms-utils/interop/Distributed2WayBusElect.cpp
+++ b/ms-utils/interop/Distributed2WayBusElect.cpp
@@ -140,6 +140,9 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
             ///   - If we are in Supply and our highest available local supply voltage < remote's
             ///     supply voltage, then we switch to Demand.  This keeps the Supply role on the
             ///     side with the higher available local supply voltage.
+            ///   - If we are in Supply, the remote side has also remained in Supply, and sufficient
+            ///     time has passed since our last mode change, then the non-primary side switches to
+            ///     Demand.  Neither side would yield to the other's supply voltage in this case.
             /// - Wait and only do mode changes when we have valid data from other side.
             if (mInData.mFrameLoopback > 0) {
                 if (mOutData.mDemandMode) {
@@ -156,6 +159,11 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
                         std::ostringstream msg;
                         msg << "flipping to Demand role with available V: " << availV << " < remote V: " << mInData.mSupplyVoltage << ".";
                         pushNotification(Distributed2WayBusNotification::INFO, msg.str());
+                    } else if (not mIsPairMaster and not mInData.mDemandMode and (mFramesSinceFlip > mLoopLatency)) {
+                        mOutData.mDemandMode = true;
+                        mFramesSinceFlip     = 0;
+                        pushNotification(Distributed2WayBusNotification::INFO,
+                                "flipping to Demand role because both sides are in Supply role.");
                     }
                 }
             }
-- 
2.43.0


From aac0d192a360c9288612caa5c12e2e22abbf4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 12/56] fix: keep accuracy in PolyFluid::computeTemperature
 when specific heat slopes cancel out

In mixtures such as Helium with 3% Nitrogen, the temperature found from the specific enthalpy was
the difference of nearly equal numbers divided by a nearly zero slope, and lost all accuracy.
---
 aspects/fluid/fluid/PolyFluid.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 37ea386..7576699 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -1179,7 +1179,16 @@ double PolyFluid::computeTemperature(const double specificEnthalpy) const
     ///   so -4ac = +4ah.
     // Protect for square root of negative number
     const double temp = std::max( (b * b + 4.0 * a * specificEnthalpy), 0.0);
-    return 0.5 * (-b + std::sqrt(temp)) / a;
+    const double root = std::sqrt(temp);
+
+    /// - When the specific heat slopes of the constituents nearly cancel out, such as in Helium with
+    ///   a little Nitrogen, b and the root are nearly equal and a is nearly zero, and the difference
+    ///   of the former over the latter has no accuracy left.  Use the equivalent form of the root
+    ///   that sums them instead.
+    if (b > 0.0 and std::fabs(a * specificEnthalpy) < 1.0E-4 * b * b) {
+        return 2.0 * specificEnthalpy / (b + root);
+    }
+    return 0.5 * (-b + root) / a;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d34f2cbfabdd559e643ed86e0e21fbe6c4bb18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 13/56] fix: GunnsFluidDistributedIf used its own fluid's
 energy for fluid demanded by the other side

A Supply side received the Demand side's flow with the temperature or enthalpy last sent as a
fluid state instead of the energy in the flow state it received.
---
 core/GunnsFluidDistributedIf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..23604b3 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,12 +456,12 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
-    if (mWorkFluidState.mTcMoleFractions) {
+    if (workingState->mTcMoleFractions) {
         GunnsFluidTraceCompounds* tc = fluid->getTraceCompounds();
         if (tc) {
             /// - As above, adjust the TC mole fractions to be relative to the internal GUNNS bulk
-- 
2.43.0


From b45268c0a0898ec679d37390cbf2b62722d41a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 14/56] fix: track trace compounds in net negative fluid flows
 instead of dropping them

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index a39e784..af3528e 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -642,11 +642,12 @@ void GunnsFluidTraceCompounds::updateMasses()
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @details  Recomputes the compound mole fractions in this Trace Compounds from their masses
-///           relative to the total moles of the parent fluid.
+///           relative to the total moles of the parent fluid.  A parent fluid that represents a net
+///           negative flow has negative moles and masses, whose ratio is still a valid fraction.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidTraceCompounds::updateMoleFractions()
 {
-    if (mFluidMoles > 0.0) {
+    if (std::fabs(mFluidMoles) > 0.0) {
         for (int i = 0;  i < mConfig->mNTypes; ++i) {
             mMoleFraction[i] = mMass[i] / mFluidMoles / mConfig->mCompounds[i]->mMWeight;
         }
@@ -655,7 +656,7 @@ void GunnsFluidTraceCompounds::updateMoleFractions()
     /// - To avoid math underflows, zero mass and mole fraction if the mole fraction drops to an
     ///   insignificant level.
     for (int i = 0;  i < mConfig->mNTypes; ++i) {
-        if (mMoleFraction[i] < DBL_EPSILON) {
+        if (std::fabs(mMoleFraction[i]) < DBL_EPSILON) {
             mMoleFraction[i] = 0.0;
             mMass[i]         = 0.0;
         }
-- 
2.43.0


From a3119636b2a645dd72f07748617bcdde1792f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 15/56] fix: restore the original line endings of
 Distributed2WayBusFluid.cpp

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 1214 +++++++++---------
 1 file changed, 607 insertions(+), 607 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index aa5afa0..8500ea0 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -1,607 +1,607 @@
-/**
-@file     Distributed2WayBusFluid.cpp
-@brief    Fluid Distributed 2-Way Bus Interface implementation
-
-@copyright Copyright 2025 United States Government as represented by the Administrator of the
-           National Aeronautics and Space Administration.  All Rights Reserved.
-
-LIBRARY DEPENDENCY:
-  ((interop/Distributed2WayBusBase.o))
-*/
-
-#include "Distributed2WayBusFluid.hh"
-#include <cfloat>
-#include <cmath>
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed fluid mixture data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData::FluidDistributedMixtureData()
-    :
-    mEnergy(0.0),
-    mMoleFractions(0),
-    mTcMoleFractions(0),
-    mNumFluid(0),
-    mNumTc(0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed fluid mixture data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData::~FluidDistributedMixtureData()
-{
-    if (mTcMoleFractions) {
-        delete [] mTcMoleFractions;
-    }
-    if (mMoleFractions) {
-        delete [] mMoleFractions;
-    }
-}
-
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.  This is a
-///           'deep' copy, as this object's mixture arrays remain separate from that's.  We do not
-///           assume the objects have the same sized mixture arrays, so we only assign up to the
-///           index of the smaller array.  If this object's array is larger than that's, we do not
-///           assign the indexes in this for which that doesn't have indexes.  Since this is a deep
-///           copy, the mNum array size variables are not assigned because they must reflect our
-///           arrays, which are not resized.  This doesn't assume the objects have been initialized,
-///           so we avoid setting or referencing mixture arrays that haven't been allocated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-FluidDistributedMixtureData& FluidDistributedMixtureData::operator =(const FluidDistributedMixtureData& that)
-{
-    if (this != &that) {
-        mEnergy = that.mEnergy;
-        for (unsigned int i=0; i<std::min(mNumFluid, that.mNumFluid); ++i) {
-            mMoleFractions[i] = that.mMoleFractions[i];
-        }
-        for (unsigned int i=0; i<std::min(mNumTc, that.mNumTc); ++i) {
-            mTcMoleFractions[i] = that.mTcMoleFractions[i];
-        }
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] nBulk   (--) Number of bulk fluid constituents.
-/// @param[in] nTc     (--) Number of trace compounds.
-/// @param[in] name    (--) Not used.
-///
-/// @details  Allocates arrays for bulk fluid and trace compounds mole fractions.  This function is
-///           virtual and the name argument exists to support derived types needing to allocate the
-///           mixture arrays using a specific sim memory manager.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::initialize(const unsigned int nBulk,
-                                                  const unsigned int nTc,
-                                                  const std::string& name __attribute__((unused)))
-{
-    mNumFluid       = nBulk;
-    mNumTc          = nTc;
-
-    /// - Delete & re-allocate fractions arrays in case of repeated calls to this function.
-    if (mMoleFractions) {
-        delete [] mMoleFractions;
-        mMoleFractions = 0;
-    }
-    if (nBulk > 0) {
-        mMoleFractions = new double[nBulk];
-        for (unsigned int i=0; i<nBulk; ++i) {
-            mMoleFractions[i] = 0.0;
-        }
-    }
-    if (mTcMoleFractions) {
-        delete [] mTcMoleFractions;
-        mTcMoleFractions = 0;
-    }
-    if (nTc > 0) {
-        mTcMoleFractions = new double[nTc];
-        for (unsigned int i=0; i<nTc; ++i) {
-            mTcMoleFractions[i] = 0.0;
-        }
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fractions (--) Array of bulk fluid mole fraction values to read from.
-/// @param[in] size      (--) Size of the given fractions array.
-///
-/// @details  Sets this object's bulk fluid mole fractions equal to the given values.  The given
-///           array can be larger or smaller than our internal array.  If our array is larger, then
-///           the remaining values in the our array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::setMoleFractions(const double* fractions, const unsigned int size)
-{
-    const unsigned int smallerSize = std::min(mNumFluid, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        mMoleFractions[i] = fractions[i];
-    }
-    for (unsigned int i=smallerSize; i<mNumFluid; ++i) {
-        mMoleFractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fractions (--) Array of trace compound mole fractions to read from.
-/// @param[in] size      (--) Size of the given fractions array.
-///
-/// @details  Sets this object's trace compound mole fractions equal to the given values.  The given
-///           array can be larger or smaller than our internal array.  If our array is larger, then
-///           the remaining values in the our array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::setTcMoleFractions(const double* fractions, const unsigned int size)
-{
-    const unsigned int smallerSize = std::min(mNumTc, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        mTcMoleFractions[i] = fractions[i];
-    }
-    for (unsigned int i=smallerSize; i<mNumTc; ++i) {
-        mTcMoleFractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fractions (--) Array of bulk fluid mole fractions to write to.
-/// @param[in]  size      (--) Size of the given fractions array.
-///
-/// @details  Sets the given bulk fluid mole fractions equal to this object's values.  The given
-///           array can be larger or smaller than our internal array.  If our array is smaller, then
-///           the remaining values in the given array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::getMoleFractions(double* fractions, const unsigned int size) const
-{
-    const unsigned int smallerSize = std::min(mNumFluid, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        fractions[i] = mMoleFractions[i];
-    }
-    for (unsigned int i=smallerSize; i<size; ++i) {
-        fractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fractions (--) Array of trace compound mole fractions to write to.
-/// @param[in]  size      (--) Size of the given fractions array.
-///
-/// @details  Sets the given builk trace compound fractions to this interface's values.  The given
-///           array can be larger or smaller than our internal array.  If our array is smaller, then
-///           the remaining values in the given array are filled with zeroes.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void FluidDistributedMixtureData::getTcMoleFractions(double* fractions, const unsigned int size) const
-{
-    const unsigned int smallerSize = std::min(mNumTc, size);
-    for (unsigned int i=0; i<smallerSize; ++i) {
-        fractions[i] = mTcMoleFractions[i];
-    }
-    for (unsigned int i=smallerSize; i<size; ++i) {
-        fractions[i] = 0.0;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed fluid state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState::Distributed2WayBusFluidFluidState()
-    :
-    FluidDistributedMixtureData(),
-    mPressure(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed fluid state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState::~Distributed2WayBusFluidFluidState()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFluidState& Distributed2WayBusFluidFluidState::operator =(const Distributed2WayBusFluidFluidState& that)
-{
-    if (this != &that) {
-        FluidDistributedMixtureData::operator = (that);
-        mPressure = that.mPressure;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this distributed flow state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState::Distributed2WayBusFluidFlowState()
-    :
-    FluidDistributedMixtureData(),
-    mFlowRate(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this distributed flow state data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState::~Distributed2WayBusFluidFlowState()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidFlowState& Distributed2WayBusFluidFlowState::operator =(const Distributed2WayBusFluidFlowState& that)
-{
-    if (this != &that) {
-        FluidDistributedMixtureData::operator = (that);
-        mFlowRate = that.mFlowRate;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this Fluid Distributed 2-Way Bus interface data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData::Distributed2WayBusFluidInterfaceData()
-    :
-    FluidDistributedMixtureData(),
-    Distributed2WayBusBaseInterfaceData(),
-    mCapacitance(0.0),
-    mSource(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Fluid Distributed 2-Way Bus interface data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData::~Distributed2WayBusFluidInterfaceData()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  that  (--)  Object that this is to be assigned equal to.
-///
-/// @details  Assigns values of this object's attributes to the given object's values.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluidInterfaceData& Distributed2WayBusFluidInterfaceData::operator =(const Distributed2WayBusFluidInterfaceData& that)
-{
-    if (this != &that) {
-        Distributed2WayBusBaseInterfaceData::operator = (that);
-        FluidDistributedMixtureData::operator = (that);
-        mCapacitance = that.mCapacitance;
-        mSource      = that.mSource;
-    }
-    return *this;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @returns  (--)  True if all data validation checks passed.
-///
-/// @details  Checks for all of the following conditions to be met:  Frame count > 0, energy > 0,
-///           capacitance >= 0, pressure >= 0 (only in Supply mode), and all mixture fractions >= 0.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluidInterfaceData::hasValidData() const
-{
-    if (mFrameCount < 1 or mEnergy <= 0.0 or mCapacitance < 0.0 or (mSource < 0.0 and not mDemandMode)) {
-        return false;
-    }
-    for (unsigned int i=0; i<mNumFluid; ++i) {
-        if (mMoleFractions[i] < 0.0) {
-            return false;
-        }
-    }
-    for (unsigned int i=0; i<mNumTc; ++i) {
-        if (mTcMoleFractions[i] < 0.0) {
-            return false;
-        }
-    }
-    return true;
-}
-
-/// @details  Upper limit of ratio of Supply-side capacitance over Demand-side capacitance, above
-///           which the stability filter imposes no limit on Demand-side flow rate.
-const double Distributed2WayBusFluid::mModingCapacitanceRatio = 1.25;
-/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
-const double Distributed2WayBusFluid::mDemandFilterConstA = 1.5;
-/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
-const double Distributed2WayBusFluid::mDemandFilterConstB = 0.75;
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default constructs this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluid::Distributed2WayBusFluid()
-    :
-    Distributed2WayBusBase(&mInData, &mOutData),
-    mInData                (),
-    mOutData               (),
-    mDemandLimitGain       (0.0),
-    mDemandLimitFlowRate   (0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-Distributed2WayBusFluid::~Distributed2WayBusFluid()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] isPairMaster (--) True if this is the master side of the interface, for tie-breaking.
-/// @param[in] nIfBulk      (--) Number of bulk fluid constituents in the interface data.
-/// @param[in] nIfTc        (--) Number of trace compounds in the interface data.
-///
-/// @details  Initializes this Fluid Distributed 2-Way Bus Interface.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::initialize(const bool         isPairMaster,
-                                              const unsigned int nIfBulk,
-                                              const unsigned int nIfTc)
-{
-    /// - Initialize the interface data objects so they can allocate memory.
-    mInData .initialize(nIfBulk, nIfTc);
-    mOutData.initialize(nIfBulk, nIfTc);
-
-    /// - Initialize remaining state variables.
-    Distributed2WayBusBase::initialize(isPairMaster);
-    mDemandLimitGain     = 0.0;
-    mDemandLimitFlowRate = 0.0;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] fluid (--) The fluid state in the interface volume.
-///
-/// @details  When this in the Supply role, this copies the given fluid state, describing the fluid
-///           state in the interface volume, into the outgoing interface data for transmission to
-///           the other side.
-///
-/// @note  This should only be called when this interface is in the Supply role, and this will push
-///        a warning notification if called in the Demand role.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::setFluidState(const Distributed2WayBusFluidFluidState& fluid)
-{
-    if (isInDemandRole()) {
-        pushNotification(Distributed2WayBusNotification::WARN,
-                "setFluidState was called when in the Demand role.");
-    } else {
-        mOutData.mSource = fluid.mPressure;
-        mOutData.mEnergy = fluid.mEnergy;
-        mOutData.setMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
-        mOutData.setTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] fluid (--) The fluid state in the interface volume.
-///
-/// @returns  bool (--) True if the supplied fluid state object was updated, otherwise false.
-///
-/// @details  When in the Demand role, this copies the received interface volume fluid state from
-///           the other side of the interface into the supplied state object.  The local model
-///           should drive their interface volume to this fluid state boundary condition.
-///
-/// @note  The supplied fluid state object is not updated if this interface is not in the Demand
-///        role, or if Supply role data has not been received from the other side, which can happen
-///        briefly during run start or role swaps.  The returned bool value indicates whether the
-///        supplied fluid state object was updated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluid::getFluidState(Distributed2WayBusFluidFluidState& fluid) const
-{
-    if (isInDemandRole() and mInData.hasValidData() and not mInData.mDemandMode) {
-        fluid.mPressure = mInData.mSource;
-        fluid.mEnergy = mInData.mEnergy;
-        mInData.getMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
-        mInData.getTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
-        return true;
-    }
-    return false;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] flow (--) The flow state to/from the interface volume.
-///
-/// @details  When this in the Demand role, this copies the given flow state, describing the flow
-///           state to or from the interface volume, into the outgoing interface data for
-///           transmission to the other side.  By convention, positive flow rate values are for flow
-///           pulled from the interface volume into the local Demand-side model, i.e. flow from the
-///           Supply side to the Demand side, and negative flow rates are flow from the Demand side
-///           to the Supply side.
-///
-/// @note  This should only be called when this interface is in the Supply role, and this will push
-///        a warning notification if called in the Demand role.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::setFlowState(const Distributed2WayBusFluidFlowState& flow)
-{
-    if (not isInDemandRole()) {
-        pushNotification(Distributed2WayBusNotification::WARN,
-                "setFlowState was called when in the Supply role.");
-    } else {
-        mOutData.mSource = flow.mFlowRate;
-        mOutData.mEnergy = flow.mEnergy;
-        mOutData.setMoleFractions(flow.mMoleFractions, flow.getNumFluid());
-        mOutData.setTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[out] flow (--) The flow state to/from the interface volume.
-///
-/// @returns  bool (--) True if the supplied flow state object was updated, otherwise false.
-///
-/// @details  When in the Supply role, this copies the received interface flow state from the other
-///           side of the interface into the supplied flow state object.  The local model should
-///           apply this flow to or from their interface volume model.  By convention, positive flow
-///           rate values are for flow pulled from the interface volume into the local Demand-side
-///           model, i.e. flow from the Supply side to the Demand side, and negative flow rates are
-///           flow from the Demand side to the Supply side.  This means that the local Supply volume
-///           model should subtract the integral of the given flow rate from its fluid mass.
-///
-/// @note  The supplied flow state object is not updated if this interface is not in the Supply
-///        role, or if Demand role data has not been received from the other side, which can happen
-///        briefly during run start or role swaps.  The returned bool value indicates whether the
-///        supplied flow state object was updated.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-bool Distributed2WayBusFluid::getFlowState(Distributed2WayBusFluidFlowState& flow) const
-{
-    if (not isInDemandRole() and mInData.hasValidData() and mInData.mDemandMode) {
-        flow.mFlowRate = mInData.mSource;
-        flow.mEnergy   = mInData.mEnergy;
-        mInData.getMoleFractions(flow.mMoleFractions, flow.getNumFluid());
-        mInData.getTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
-        return true;
-    }
-    return false;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes incoming data from the other side of the interface: checks for role swaps,
-///           and updates the frame counters and loop latency measurement.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::processInputs()
-{
-    /// - Update frame counters and loop latency measurement.
-    updateFrameCounts();
-
-    /// - Mode changes and associated node volume update in response to incoming data.
-    flipModesOnInput();
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] timestep           (s)  Model integration time step.
-/// @param[in] demandSidePressure (Pa) Model pressure adjacent to the interface volume.
-///
-/// @details  Calculates and returns the maximum limit on molar flow rate between the Demand-side
-///           model and the interface volume, based on data loop latency, and relative pressures and
-///           capacitances of the interfacing sides.  When the Demand-side model limits its flow
-///           rate to/from the interface volume to this limit, the interface will be stable.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-double Distributed2WayBusFluid::computeDemandLimit(const double timestep,
-                                                        const double demandSidePressure)
-{
-    double gain      = 0.0;
-    double ndotLimit = 0.0;
-    if (isInDemandRole() and not mInData.mDemandMode) {
-        /// - Limit inputs to avoid divide-by-zero.
-        if (timestep > DBL_EPSILON and mOutData.mCapacitance > DBL_EPSILON and mInData.mCapacitance > DBL_EPSILON) {
-            /// - Limited exponent for the lag gain:
-            const int exponent = std::min(100, std::max(1, mLoopLatency));
-            /// - Stability filter 'lag gain' imposes limit on demand flow as latency increases.
-            const double lagGain = std::min(1.0, mDemandFilterConstA * std::pow(mDemandFilterConstB, exponent));
-            /// - Limited capacitance ratio for the gain:
-            const double csOverCd = std::min(mModingCapacitanceRatio, std::max(1.0, mInData.mCapacitance / mOutData.mCapacitance));
-            /// - Stability filter 'gain' further limits the demand flow as Supply-side capacitance
-            ///   approaches Demand-side capacitance.
-            gain = lagGain + (1.0 - lagGain) * (csOverCd - 1.0) * 4.0;
-            /// - Demand flow rate limit.
-            ndotLimit = gain * std::fabs(demandSidePressure - mInData.mSource)
-                      / (timestep * (1.0 / mOutData.mCapacitance + 1.0 / mInData.mCapacitance));
-        }
-    }
-    mDemandLimitGain     = gain;
-    mDemandLimitFlowRate = ndotLimit;
-    return mDemandLimitFlowRate;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Handles mode flips in response to incoming data, and the initial mode flip at run
-///           start.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipModesOnInput()
-{
-    /// - Force mode swap based on the mode force flags.
-    if (DEMAND == mForcedRole and not isInDemandRole()) {
-        flipToDemandMode();
-    } else if (SUPPLY == mForcedRole and isInDemandRole()) {
-        flipToSupplyMode();
-    } else if (mInData.hasValidData()) {
-        /// - If in demand mode and the incoming data is also demand, then the other side has
-        ///   initialized the demand/supply swap, so we flip to supply.  Normally we only respond to
-        ///   the other side's change to demand.  But if the other side is still in demand more than
-        ///   one full lag cycle after our own last flip, then both sides are stuck in demand, which
-        ///   can happen when a side has been restarted, a force flag was released, or data was
-        ///   invalid during the swap.  In this case we flip to supply to re-start the negotiation.
-        if (mOutData.mDemandMode and mInData.mDemandMode and
-                (not mInDataLastDemandMode or mFramesSinceFlip > mLoopLatency)) {
-            flipToSupplyMode();
-        } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
-            if ( (mOutData.mCapacitance < mInData.mCapacitance) or
-                    (mIsPairMaster and mOutData.mCapacitance == mInData.mCapacitance) ) {
-                /// - If in supply mode and the incoming data is also supply, then this is the start
-                ///   of the run and the side with the smaller capacitance switches to demand mode,
-                ///   and the master side is the tie-breaker.
-                flipToDemandMode();
-            }
-        }
-        mInDataLastDemandMode = mInData.mDemandMode;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Flips from supply to demand mode whenever the supply side capacitance drops below
-///           some fraction of the demand side's capacitance.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipModesOnCapacitance()
-{
-    /// - We do not check until we've been in supply mode for at least one full lag cycle.  This
-    ///   prevents unwanted extra mode flips during large transients.
-    if (mFramesSinceFlip > mLoopLatency and
-            mOutData.mCapacitance * mModingCapacitanceRatio < mInData.mCapacitance) {
-        flipToDemandMode();
-        /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
-        ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
-        ///   pass in demand mode.  If a forced Supply role prevented the flip, then the other side
-        ///   still needs our supply pressure.
-        if (isInDemandRole()) {
-            mOutData.mSource = 0.0;
-        }
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes flipping to Demand mode.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipToDemandMode()
-{
-    if (SUPPLY != mForcedRole) {
-        mOutData.mDemandMode = true;
-        mFramesSinceFlip = 0;
-        pushNotification(Distributed2WayBusNotification::INFO, "switched to Demand mode.");
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Processes flipping to Supply mode.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::flipToSupplyMode()
-{
-    if (DEMAND != mForcedRole) {
-        mOutData.mDemandMode = false;
-        mFramesSinceFlip = 0;
-        pushNotification(Distributed2WayBusNotification::INFO, "switched to Supply mode.");
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Final updates for output data before transmission to the other side.  Sets outputs
-///           capacitance to the given value.  Flips from Supply to Demand role if the new
-///           capacitance is low enough, and updates the count of frames since the last mode flip.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void Distributed2WayBusFluid::processOutputs(const double capacitance)
-{
-    mOutData.mCapacitance = capacitance;
-    if (not isInDemandRole()) {
-        flipModesOnCapacitance();
-    }
-}
+/**
+@file     Distributed2WayBusFluid.cpp
+@brief    Fluid Distributed 2-Way Bus Interface implementation
+
+@copyright Copyright 2025 United States Government as represented by the Administrator of the
+           National Aeronautics and Space Administration.  All Rights Reserved.
+
+LIBRARY DEPENDENCY:
+  ((interop/Distributed2WayBusBase.o))
+*/
+
+#include "Distributed2WayBusFluid.hh"
+#include <cfloat>
+#include <cmath>
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed fluid mixture data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData::FluidDistributedMixtureData()
+    :
+    mEnergy(0.0),
+    mMoleFractions(0),
+    mTcMoleFractions(0),
+    mNumFluid(0),
+    mNumTc(0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed fluid mixture data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData::~FluidDistributedMixtureData()
+{
+    if (mTcMoleFractions) {
+        delete [] mTcMoleFractions;
+    }
+    if (mMoleFractions) {
+        delete [] mMoleFractions;
+    }
+}
+
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.  This is a
+///           'deep' copy, as this object's mixture arrays remain separate from that's.  We do not
+///           assume the objects have the same sized mixture arrays, so we only assign up to the
+///           index of the smaller array.  If this object's array is larger than that's, we do not
+///           assign the indexes in this for which that doesn't have indexes.  Since this is a deep
+///           copy, the mNum array size variables are not assigned because they must reflect our
+///           arrays, which are not resized.  This doesn't assume the objects have been initialized,
+///           so we avoid setting or referencing mixture arrays that haven't been allocated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+FluidDistributedMixtureData& FluidDistributedMixtureData::operator =(const FluidDistributedMixtureData& that)
+{
+    if (this != &that) {
+        mEnergy = that.mEnergy;
+        for (unsigned int i=0; i<std::min(mNumFluid, that.mNumFluid); ++i) {
+            mMoleFractions[i] = that.mMoleFractions[i];
+        }
+        for (unsigned int i=0; i<std::min(mNumTc, that.mNumTc); ++i) {
+            mTcMoleFractions[i] = that.mTcMoleFractions[i];
+        }
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] nBulk   (--) Number of bulk fluid constituents.
+/// @param[in] nTc     (--) Number of trace compounds.
+/// @param[in] name    (--) Not used.
+///
+/// @details  Allocates arrays for bulk fluid and trace compounds mole fractions.  This function is
+///           virtual and the name argument exists to support derived types needing to allocate the
+///           mixture arrays using a specific sim memory manager.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::initialize(const unsigned int nBulk,
+                                                  const unsigned int nTc,
+                                                  const std::string& name __attribute__((unused)))
+{
+    mNumFluid       = nBulk;
+    mNumTc          = nTc;
+
+    /// - Delete & re-allocate fractions arrays in case of repeated calls to this function.
+    if (mMoleFractions) {
+        delete [] mMoleFractions;
+        mMoleFractions = 0;
+    }
+    if (nBulk > 0) {
+        mMoleFractions = new double[nBulk];
+        for (unsigned int i=0; i<nBulk; ++i) {
+            mMoleFractions[i] = 0.0;
+        }
+    }
+    if (mTcMoleFractions) {
+        delete [] mTcMoleFractions;
+        mTcMoleFractions = 0;
+    }
+    if (nTc > 0) {
+        mTcMoleFractions = new double[nTc];
+        for (unsigned int i=0; i<nTc; ++i) {
+            mTcMoleFractions[i] = 0.0;
+        }
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fractions (--) Array of bulk fluid mole fraction values to read from.
+/// @param[in] size      (--) Size of the given fractions array.
+///
+/// @details  Sets this object's bulk fluid mole fractions equal to the given values.  The given
+///           array can be larger or smaller than our internal array.  If our array is larger, then
+///           the remaining values in the our array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::setMoleFractions(const double* fractions, const unsigned int size)
+{
+    const unsigned int smallerSize = std::min(mNumFluid, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        mMoleFractions[i] = fractions[i];
+    }
+    for (unsigned int i=smallerSize; i<mNumFluid; ++i) {
+        mMoleFractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fractions (--) Array of trace compound mole fractions to read from.
+/// @param[in] size      (--) Size of the given fractions array.
+///
+/// @details  Sets this object's trace compound mole fractions equal to the given values.  The given
+///           array can be larger or smaller than our internal array.  If our array is larger, then
+///           the remaining values in the our array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::setTcMoleFractions(const double* fractions, const unsigned int size)
+{
+    const unsigned int smallerSize = std::min(mNumTc, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        mTcMoleFractions[i] = fractions[i];
+    }
+    for (unsigned int i=smallerSize; i<mNumTc; ++i) {
+        mTcMoleFractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fractions (--) Array of bulk fluid mole fractions to write to.
+/// @param[in]  size      (--) Size of the given fractions array.
+///
+/// @details  Sets the given bulk fluid mole fractions equal to this object's values.  The given
+///           array can be larger or smaller than our internal array.  If our array is smaller, then
+///           the remaining values in the given array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::getMoleFractions(double* fractions, const unsigned int size) const
+{
+    const unsigned int smallerSize = std::min(mNumFluid, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        fractions[i] = mMoleFractions[i];
+    }
+    for (unsigned int i=smallerSize; i<size; ++i) {
+        fractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fractions (--) Array of trace compound mole fractions to write to.
+/// @param[in]  size      (--) Size of the given fractions array.
+///
+/// @details  Sets the given builk trace compound fractions to this interface's values.  The given
+///           array can be larger or smaller than our internal array.  If our array is smaller, then
+///           the remaining values in the given array are filled with zeroes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void FluidDistributedMixtureData::getTcMoleFractions(double* fractions, const unsigned int size) const
+{
+    const unsigned int smallerSize = std::min(mNumTc, size);
+    for (unsigned int i=0; i<smallerSize; ++i) {
+        fractions[i] = mTcMoleFractions[i];
+    }
+    for (unsigned int i=smallerSize; i<size; ++i) {
+        fractions[i] = 0.0;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed fluid state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState::Distributed2WayBusFluidFluidState()
+    :
+    FluidDistributedMixtureData(),
+    mPressure(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed fluid state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState::~Distributed2WayBusFluidFluidState()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFluidState& Distributed2WayBusFluidFluidState::operator =(const Distributed2WayBusFluidFluidState& that)
+{
+    if (this != &that) {
+        FluidDistributedMixtureData::operator = (that);
+        mPressure = that.mPressure;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this distributed flow state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState::Distributed2WayBusFluidFlowState()
+    :
+    FluidDistributedMixtureData(),
+    mFlowRate(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this distributed flow state data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState::~Distributed2WayBusFluidFlowState()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidFlowState& Distributed2WayBusFluidFlowState::operator =(const Distributed2WayBusFluidFlowState& that)
+{
+    if (this != &that) {
+        FluidDistributedMixtureData::operator = (that);
+        mFlowRate = that.mFlowRate;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this Fluid Distributed 2-Way Bus interface data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData::Distributed2WayBusFluidInterfaceData()
+    :
+    FluidDistributedMixtureData(),
+    Distributed2WayBusBaseInterfaceData(),
+    mCapacitance(0.0),
+    mSource(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Fluid Distributed 2-Way Bus interface data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData::~Distributed2WayBusFluidInterfaceData()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  that  (--)  Object that this is to be assigned equal to.
+///
+/// @details  Assigns values of this object's attributes to the given object's values.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluidInterfaceData& Distributed2WayBusFluidInterfaceData::operator =(const Distributed2WayBusFluidInterfaceData& that)
+{
+    if (this != &that) {
+        Distributed2WayBusBaseInterfaceData::operator = (that);
+        FluidDistributedMixtureData::operator = (that);
+        mCapacitance = that.mCapacitance;
+        mSource      = that.mSource;
+    }
+    return *this;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  (--)  True if all data validation checks passed.
+///
+/// @details  Checks for all of the following conditions to be met:  Frame count > 0, energy > 0,
+///           capacitance >= 0, pressure >= 0 (only in Supply mode), and all mixture fractions >= 0.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluidInterfaceData::hasValidData() const
+{
+    if (mFrameCount < 1 or mEnergy <= 0.0 or mCapacitance < 0.0 or (mSource < 0.0 and not mDemandMode)) {
+        return false;
+    }
+    for (unsigned int i=0; i<mNumFluid; ++i) {
+        if (mMoleFractions[i] < 0.0) {
+            return false;
+        }
+    }
+    for (unsigned int i=0; i<mNumTc; ++i) {
+        if (mTcMoleFractions[i] < 0.0) {
+            return false;
+        }
+    }
+    return true;
+}
+
+/// @details  Upper limit of ratio of Supply-side capacitance over Demand-side capacitance, above
+///           which the stability filter imposes no limit on Demand-side flow rate.
+const double Distributed2WayBusFluid::mModingCapacitanceRatio = 1.25;
+/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
+const double Distributed2WayBusFluid::mDemandFilterConstA = 1.5;
+/// @details  Constant in the lag gain equation: lag_gain = 1.5 * 0.75^lag_frames
+const double Distributed2WayBusFluid::mDemandFilterConstB = 0.75;
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default constructs this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluid::Distributed2WayBusFluid()
+    :
+    Distributed2WayBusBase(&mInData, &mOutData),
+    mInData                (),
+    mOutData               (),
+    mDemandLimitGain       (0.0),
+    mDemandLimitFlowRate   (0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+Distributed2WayBusFluid::~Distributed2WayBusFluid()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] isPairMaster (--) True if this is the master side of the interface, for tie-breaking.
+/// @param[in] nIfBulk      (--) Number of bulk fluid constituents in the interface data.
+/// @param[in] nIfTc        (--) Number of trace compounds in the interface data.
+///
+/// @details  Initializes this Fluid Distributed 2-Way Bus Interface.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::initialize(const bool         isPairMaster,
+                                              const unsigned int nIfBulk,
+                                              const unsigned int nIfTc)
+{
+    /// - Initialize the interface data objects so they can allocate memory.
+    mInData .initialize(nIfBulk, nIfTc);
+    mOutData.initialize(nIfBulk, nIfTc);
+
+    /// - Initialize remaining state variables.
+    Distributed2WayBusBase::initialize(isPairMaster);
+    mDemandLimitGain     = 0.0;
+    mDemandLimitFlowRate = 0.0;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fluid (--) The fluid state in the interface volume.
+///
+/// @details  When this in the Supply role, this copies the given fluid state, describing the fluid
+///           state in the interface volume, into the outgoing interface data for transmission to
+///           the other side.
+///
+/// @note  This should only be called when this interface is in the Supply role, and this will push
+///        a warning notification if called in the Demand role.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::setFluidState(const Distributed2WayBusFluidFluidState& fluid)
+{
+    if (isInDemandRole()) {
+        pushNotification(Distributed2WayBusNotification::WARN,
+                "setFluidState was called when in the Demand role.");
+    } else {
+        mOutData.mSource = fluid.mPressure;
+        mOutData.mEnergy = fluid.mEnergy;
+        mOutData.setMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
+        mOutData.setTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] fluid (--) The fluid state in the interface volume.
+///
+/// @returns  bool (--) True if the supplied fluid state object was updated, otherwise false.
+///
+/// @details  When in the Demand role, this copies the received interface volume fluid state from
+///           the other side of the interface into the supplied state object.  The local model
+///           should drive their interface volume to this fluid state boundary condition.
+///
+/// @note  The supplied fluid state object is not updated if this interface is not in the Demand
+///        role, or if Supply role data has not been received from the other side, which can happen
+///        briefly during run start or role swaps.  The returned bool value indicates whether the
+///        supplied fluid state object was updated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluid::getFluidState(Distributed2WayBusFluidFluidState& fluid) const
+{
+    if (isInDemandRole() and mInData.hasValidData() and not mInData.mDemandMode) {
+        fluid.mPressure = mInData.mSource;
+        fluid.mEnergy = mInData.mEnergy;
+        mInData.getMoleFractions(fluid.mMoleFractions, fluid.getNumFluid());
+        mInData.getTcMoleFractions(fluid.mTcMoleFractions, fluid.getNumTc());
+        return true;
+    }
+    return false;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] flow (--) The flow state to/from the interface volume.
+///
+/// @details  When this in the Demand role, this copies the given flow state, describing the flow
+///           state to or from the interface volume, into the outgoing interface data for
+///           transmission to the other side.  By convention, positive flow rate values are for flow
+///           pulled from the interface volume into the local Demand-side model, i.e. flow from the
+///           Supply side to the Demand side, and negative flow rates are flow from the Demand side
+///           to the Supply side.
+///
+/// @note  This should only be called when this interface is in the Supply role, and this will push
+///        a warning notification if called in the Demand role.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::setFlowState(const Distributed2WayBusFluidFlowState& flow)
+{
+    if (not isInDemandRole()) {
+        pushNotification(Distributed2WayBusNotification::WARN,
+                "setFlowState was called when in the Supply role.");
+    } else {
+        mOutData.mSource = flow.mFlowRate;
+        mOutData.mEnergy = flow.mEnergy;
+        mOutData.setMoleFractions(flow.mMoleFractions, flow.getNumFluid());
+        mOutData.setTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[out] flow (--) The flow state to/from the interface volume.
+///
+/// @returns  bool (--) True if the supplied flow state object was updated, otherwise false.
+///
+/// @details  When in the Supply role, this copies the received interface flow state from the other
+///           side of the interface into the supplied flow state object.  The local model should
+///           apply this flow to or from their interface volume model.  By convention, positive flow
+///           rate values are for flow pulled from the interface volume into the local Demand-side
+///           model, i.e. flow from the Supply side to the Demand side, and negative flow rates are
+///           flow from the Demand side to the Supply side.  This means that the local Supply volume
+///           model should subtract the integral of the given flow rate from its fluid mass.
+///
+/// @note  The supplied flow state object is not updated if this interface is not in the Supply
+///        role, or if Demand role data has not been received from the other side, which can happen
+///        briefly during run start or role swaps.  The returned bool value indicates whether the
+///        supplied flow state object was updated.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool Distributed2WayBusFluid::getFlowState(Distributed2WayBusFluidFlowState& flow) const
+{
+    if (not isInDemandRole() and mInData.hasValidData() and mInData.mDemandMode) {
+        flow.mFlowRate = mInData.mSource;
+        flow.mEnergy   = mInData.mEnergy;
+        mInData.getMoleFractions(flow.mMoleFractions, flow.getNumFluid());
+        mInData.getTcMoleFractions(flow.mTcMoleFractions, flow.getNumTc());
+        return true;
+    }
+    return false;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes incoming data from the other side of the interface: checks for role swaps,
+///           and updates the frame counters and loop latency measurement.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::processInputs()
+{
+    /// - Update frame counters and loop latency measurement.
+    updateFrameCounts();
+
+    /// - Mode changes and associated node volume update in response to incoming data.
+    flipModesOnInput();
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] timestep           (s)  Model integration time step.
+/// @param[in] demandSidePressure (Pa) Model pressure adjacent to the interface volume.
+///
+/// @details  Calculates and returns the maximum limit on molar flow rate between the Demand-side
+///           model and the interface volume, based on data loop latency, and relative pressures and
+///           capacitances of the interfacing sides.  When the Demand-side model limits its flow
+///           rate to/from the interface volume to this limit, the interface will be stable.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+double Distributed2WayBusFluid::computeDemandLimit(const double timestep,
+                                                        const double demandSidePressure)
+{
+    double gain      = 0.0;
+    double ndotLimit = 0.0;
+    if (isInDemandRole() and not mInData.mDemandMode) {
+        /// - Limit inputs to avoid divide-by-zero.
+        if (timestep > DBL_EPSILON and mOutData.mCapacitance > DBL_EPSILON and mInData.mCapacitance > DBL_EPSILON) {
+            /// - Limited exponent for the lag gain:
+            const int exponent = std::min(100, std::max(1, mLoopLatency));
+            /// - Stability filter 'lag gain' imposes limit on demand flow as latency increases.
+            const double lagGain = std::min(1.0, mDemandFilterConstA * std::pow(mDemandFilterConstB, exponent));
+            /// - Limited capacitance ratio for the gain:
+            const double csOverCd = std::min(mModingCapacitanceRatio, std::max(1.0, mInData.mCapacitance / mOutData.mCapacitance));
+            /// - Stability filter 'gain' further limits the demand flow as Supply-side capacitance
+            ///   approaches Demand-side capacitance.
+            gain = lagGain + (1.0 - lagGain) * (csOverCd - 1.0) * 4.0;
+            /// - Demand flow rate limit.
+            ndotLimit = gain * std::fabs(demandSidePressure - mInData.mSource)
+                      / (timestep * (1.0 / mOutData.mCapacitance + 1.0 / mInData.mCapacitance));
+        }
+    }
+    mDemandLimitGain     = gain;
+    mDemandLimitFlowRate = ndotLimit;
+    return mDemandLimitFlowRate;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Handles mode flips in response to incoming data, and the initial mode flip at run
+///           start.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipModesOnInput()
+{
+    /// - Force mode swap based on the mode force flags.
+    if (DEMAND == mForcedRole and not isInDemandRole()) {
+        flipToDemandMode();
+    } else if (SUPPLY == mForcedRole and isInDemandRole()) {
+        flipToSupplyMode();
+    } else if (mInData.hasValidData()) {
+        /// - If in demand mode and the incoming data is also demand, then the other side has
+        ///   initialized the demand/supply swap, so we flip to supply.  Normally we only respond to
+        ///   the other side's change to demand.  But if the other side is still in demand more than
+        ///   one full lag cycle after our own last flip, then both sides are stuck in demand, which
+        ///   can happen when a side has been restarted, a force flag was released, or data was
+        ///   invalid during the swap.  In this case we flip to supply to re-start the negotiation.
+        if (mOutData.mDemandMode and mInData.mDemandMode and
+                (not mInDataLastDemandMode or mFramesSinceFlip > mLoopLatency)) {
+            flipToSupplyMode();
+        } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
+            if ( (mOutData.mCapacitance < mInData.mCapacitance) or
+                    (mIsPairMaster and mOutData.mCapacitance == mInData.mCapacitance) ) {
+                /// - If in supply mode and the incoming data is also supply, then this is the start
+                ///   of the run and the side with the smaller capacitance switches to demand mode,
+                ///   and the master side is the tie-breaker.
+                flipToDemandMode();
+            }
+        }
+        mInDataLastDemandMode = mInData.mDemandMode;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Flips from supply to demand mode whenever the supply side capacitance drops below
+///           some fraction of the demand side's capacitance.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipModesOnCapacitance()
+{
+    /// - We do not check until we've been in supply mode for at least one full lag cycle.  This
+    ///   prevents unwanted extra mode flips during large transients.
+    if (mFramesSinceFlip > mLoopLatency and
+            mOutData.mCapacitance * mModingCapacitanceRatio < mInData.mCapacitance) {
+        flipToDemandMode();
+        /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
+        ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
+        ///   pass in demand mode.  If a forced Supply role prevented the flip, then the other side
+        ///   still needs our supply pressure.
+        if (isInDemandRole()) {
+            mOutData.mSource = 0.0;
+        }
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes flipping to Demand mode.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipToDemandMode()
+{
+    if (SUPPLY != mForcedRole) {
+        mOutData.mDemandMode = true;
+        mFramesSinceFlip = 0;
+        pushNotification(Distributed2WayBusNotification::INFO, "switched to Demand mode.");
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Processes flipping to Supply mode.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::flipToSupplyMode()
+{
+    if (DEMAND != mForcedRole) {
+        mOutData.mDemandMode = false;
+        mFramesSinceFlip = 0;
+        pushNotification(Distributed2WayBusNotification::INFO, "switched to Supply mode.");
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Final updates for output data before transmission to the other side.  Sets outputs
+///           capacitance to the given value.  Flips from Supply to Demand role if the new
+///           capacitance is low enough, and updates the count of frames since the last mode flip.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void Distributed2WayBusFluid::processOutputs(const double capacitance)
+{
+    mOutData.mCapacitance = capacitance;
+    if (not isInDemandRole()) {
+        flipModesOnCapacitance();
+    }
+}
-- 
2.43.0


From bfe5ca1902f62d76c2754dff0226f2329e67d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 16/56] fix: keep potential overrides when a minor step is
 rejected

---
 core/Gunns.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 53b650a..9cb17b8 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -912,13 +912,15 @@ bool Gunns::iterateMinorSteps(const double timeStep)
             mStepLog.recordNodesConvergence(mNodesConvergence);
 
             /// - Any links rejecting the solution will kick the entire network state back to the
-            ///   previous minor step, and the network goes back to being un-converged.
+            ///   previous minor step, including overrides, and the network goes back to being
+            ///   un-converged.
             result = confirmSolutionAcceptance(convergedStep, mLastMinorStep);
 
             // We use if/else structure instead of switch/case to avoid ambiguity with break
             // statements.
             if (GunnsBasicLink::REJECT == result) {
                 resetToMinorPotentialVector();
+                overridePotential();
                 outputPotentialVector();
                 resetLinksToMinorStep(convergedStep, mLastMinorStep);
                 convergedStep = 0;
-- 
2.43.0


From 231185de08142fddd9b508179326d90b1e99ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 17/56] fix: rebuild the admittance matrix after an SOR
 solution

---
 core/Gunns.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 9cb17b8..abc2ea5 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -986,6 +986,10 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
             resetToMinorPotentialVector();
             mSorFailCount++;
             GUNNS_WARNING("SOR failed to converge, reverting to Cholesky this step.");
+        } else {
+            /// - The SOR solution leaves the admittance matrix un-decomposed, so it must be rebuilt
+            ///   for the next Cholesky solution even if no link changes it.
+            mRebuild = true;
         }
     }
     //do cholesky if SOR either failed to converge or isn't being attempted.
-- 
2.43.0


From 9488ef2853cdb2ae107c6c82504540f7879ef07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 18/56] fix: keep the minimum phase-change mass when a leak's
 epsilon is lost to rounding

---
 aspects/thermal/GunnsThermalPhaseChangeBattery.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp b/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
index 69fa1b1..06c6864 100755
--- a/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
+++ b/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
@@ -445,7 +445,14 @@ void GunnsThermalPhaseChangeBattery::updateMassLeak(const double dt)
         mActualLeakRate = std::min(mMalfHotPhaseLeakRate, minMass / dt);
         hotMass -= mActualLeakRate * dt;
         mMass   -= mActualLeakRate * dt;
-        mHotPhaseFraction = hotMass / mMass;
+
+        /// - When the epsilons above are lost to rounding in a large mass, keep the minimum mass in its
+        ///   current phase.
+        if (mMass < 2.0 * DBL_EPSILON) {
+            mMass = 2.0 * DBL_EPSILON;
+        } else {
+            mHotPhaseFraction = hotMass / mMass;
+        }
     } else {
         mActualLeakRate = 0.0;
     }
-- 
2.43.0


From facfd053e93b889424e8a909ccdbf333cb774ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 19/56] fix: clear all parsed thermal data before reading the
 files again

---
 aspects/thermal/network/ThermFileParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/thermal/network/ThermFileParser.cpp b/aspects/thermal/network/ThermFileParser.cpp
index 23396a0..c86fd0f 100644
--- a/aspects/thermal/network/ThermFileParser.cpp
+++ b/aspects/thermal/network/ThermFileParser.cpp
@@ -612,6 +612,8 @@ void ThermFileParser::clearCap()
     vCapPorts.clear();
     vCapTemperatures.clear();
     vCapCapacitances.clear();
+    vCapEditGroupIdentifiers.clear();
+    vCapEditGroupList.clear();
     /// - Clear the number of capacitance links.
     numLinksCap = 0;
 }
@@ -667,6 +669,7 @@ void ThermFileParser::clearPan()
 {
     /// - Clear Thermal Panel data vectors.
     vPanPorts.clear();
+    vPanFracs.clear();
     vPanNames.clear();
     vPanAreas.clear();
     vPanAbsorptivities.clear();
@@ -697,6 +700,8 @@ void ThermFileParser::clearSrc()
     vSrcNames.clear();
     vSrcPorts.clear();
     vSrcInits.clear();
+    vSrcScalars.clear();
+    vSrcFracs.clear();
     /// - Clear the number of sources.
     numLinksSrc = 0;
 }
-- 
2.43.0


From b66bbdc8c83db0b4746b9c35bcbe1bca9d732bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 20/56] fix: reload capacitance groups with the scale that was
 applied, not a pending one

---
 aspects/thermal/network/ThermalNetwork.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aspects/thermal/network/ThermalNetwork.cpp b/aspects/thermal/network/ThermalNetwork.cpp
index a76a754..166fd84 100644
--- a/aspects/thermal/network/ThermalNetwork.cpp
+++ b/aspects/thermal/network/ThermalNetwork.cpp
@@ -1074,15 +1074,15 @@ void ThermalNetwork::preloadCapacitanceGroups()
     for (int group = 0; group < numCapEditGroups; ++group)
     {
         /// - Protect for divide by zeros below.
-        mCapEditScaleFactor[group] = std::max(mCapEditScaleFactor[group], DBL_EPSILON);
-        /// - Reverse the current scale
-        const double ratio = 1.0 / mCapEditScaleFactor[group];
+        mCapEditScalePrev[group] = std::max(mCapEditScalePrev[group], DBL_EPSILON);
+        /// - Reverse the scale that was last applied
+        const double ratio = 1.0 / mCapEditScalePrev[group];
         /// - Apply ratio
         applyCapacitanceGroups(group, ratio);
     }
 }
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  For each capacitance edit group, Apply current scale factor to capacitive links
+/// @details  For each capacitance edit group, Apply last applied scale factor to capacitive links
 ///           after loading checkpoint.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void ThermalNetwork::restartCapacitanceGroups()
@@ -1091,8 +1091,10 @@ void ThermalNetwork::restartCapacitanceGroups()
     {
         /// - Scale factor cannot be zero.
         mCapEditScaleFactor[group] = std::max(mCapEditScaleFactor[group], DBL_EPSILON);
-        /// - Apply capacitance scale
-        applyCapacitanceGroups(group, mCapEditScaleFactor[group]);
+        mCapEditScalePrev[group]   = std::max(mCapEditScalePrev[group],   DBL_EPSILON);
+        /// - Apply the capacitance scale that had been applied.  A newer scale factor that was not
+        ///   yet applied is applied in the next step.
+        applyCapacitanceGroups(group, mCapEditScalePrev[group]);
     }
 }
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d184900119c4cc884a97417748f35dedbb7a7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 21/56] fix: stop parsing at the end of a truncated XML file

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index d5ca61c..83d61fc 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -629,7 +629,7 @@ const char* TiXmlBase::ReadText(	const char* p,
 	}
 	if ( p && *p )
 		p += std::strlen( endTag );
-	return p;
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1593,6 +1593,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+			break;
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From 0bf964f2479913f1d80e733f34342aa21a105ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 22/56] fix: panels with no area or absorptivity must not start
 with a NaN flux

---
 aspects/thermal/GunnsThermalPanel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPanel.cpp b/aspects/thermal/GunnsThermalPanel.cpp
index ee63732..38a2fb1 100755
--- a/aspects/thermal/GunnsThermalPanel.cpp
+++ b/aspects/thermal/GunnsThermalPanel.cpp
@@ -150,7 +150,11 @@ void GunnsThermalPanel::initialize(const GunnsThermalPanelConfigData& configData
     mSurfaceArea = configData.cSurfaceArea;
 
     /// - Set mIncidentHeatFluxPerArea, nominally set by the SimBus, to an initial value.
-    mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    ///   A panel that can't absorb anything has none.
+    mIncidentHeatFluxPerArea = 0.0;
+    if (mAbsorptivity * mSurfaceArea > 0.0) {
+        mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    }
 
     /// - Set init flag on successful validation.
     mInitFlag = true;
-- 
2.43.0


From 1dc9a77ca965bdf5b8ae39c2e8fac8b6b8774526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 23/56] fix: SwitchElect transported its current into the nodes
 once per convergence check instead of once per step

---
 aspects/electrical/Switch/SwitchElect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index a270a72..39c74e2 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -161,6 +161,7 @@ void SwitchElect::updateState(const double timeStep __attribute__((unused))) {
 /////////////////////////////////////////////////////////////////////////////////////////////////
 void SwitchElect::computeFlows(const double timeStep) {
     mTimeStep = timeStep;
+    GunnsBasicConductor::computeFlows(timeStep);
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////
@@ -179,7 +180,6 @@ GunnsBasicLink::SolutionResult SwitchElect::confirmSolutionAcceptable(
       computeFlux();
       updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
       computePower();
-      transportFlux();
 
       mVoltage = mPotentialVector[0];
       mCurrent = mFlux;
-- 
2.43.0


From 5d3f0dd5ddf9532c678478fac9f2f68ca1763f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 24/56] fix: initial power and current shorts with negative
 values latched again on every step

---
 aspects/electrical/resistive/GunnsShortUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/resistive/GunnsShortUtil.cpp b/aspects/electrical/resistive/GunnsShortUtil.cpp
index 93d6340..d879d9b 100755
--- a/aspects/electrical/resistive/GunnsShortUtil.cpp
+++ b/aspects/electrical/resistive/GunnsShortUtil.cpp
@@ -183,12 +183,12 @@ double GunnsShortUtil::computeShort(const double voltage)
 
     /// - Update or reset initial power and current latching terms.
     if (mMalfInitialPowerFlag) {
-        mPreviousPower = mMalfInitialPowerValue;
+        mPreviousPower = std::fabs(mMalfInitialPowerValue);
     } else {
         mPreviousPower = 0.0;
     }
     if (mMalfInitialCurrentFlag) {
-        mPreviousCurrent = mMalfInitialCurrentValue;
+        mPreviousCurrent = std::fabs(mMalfInitialCurrentValue);
     } else {
         mPreviousCurrent = 0.0;
     }
-- 
2.43.0


From 6cc02472c6d08405ad1baf2fbc26d7b1406fd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 25/56] fix: releasing the loads override of an open switch
 left the override's conductance in the network

---
 aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp  | 5 +++++
 aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index cd1e99f..bb90ab0 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -276,6 +276,11 @@ void GunnsElectUserLoadSwitch::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove the override's conductance on port 1, also when the switch is left open.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 7718a46..e7c8d14 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -311,6 +311,11 @@ void GunnsElectUserLoadSwitch2::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove the override's conductance on port 1, also when the switch is left open.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
-- 
2.43.0


From aa4d097cb7a6ccfb4bad697e614b7c6e910e21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 26/56] fix: reset of one voltage trip closed a switch that was
 still tripped by the other

---
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index c8a11f6..37b6e8e 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -344,9 +344,10 @@ void GunnsElectSwitchUtil2::updateTrips(const double current, const double volta
             } else if (GunnsBasicLink::REJECT == result) {
                 mJustTripped = true;
                 /// - Upon reset of the voltage trip, the switch automatically closes if it is
-                ///   still commanded to close.  This feature can be avoided by the user resetting
-                ///   the position command to open whenever the switch trips open.
-                if (mPositionCommand) {
+                ///   still commanded to close and not also tripped by its other voltage trip.  This
+                ///   feature can be avoided by the user resetting the position command to open
+                ///   whenever the switch trips open.
+                if (mPositionCommand and not isTripped()) {
                     mPosition = true;
                 }
             }
-- 
2.43.0


From 5a969d54f1c75df29148d779b61ab0213aa6a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 27/56] fix: a tripped switch stayed closed after a fail closed
 malfunction had ended

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp  | 3 +++
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e227251..08d91dc 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -420,6 +420,9 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a switch that tripped stays open, also when a fail closed malfunction has just ended
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index 37b6e8e..38059a2 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -287,7 +287,9 @@ void GunnsElectSwitchUtil2::updateState()
         mPosition = true;
     } else if (mMalfFailOpen) {
         mPosition = false;
-    } else if (not (isTripped() or isWaitingToTrip())) {
+    } else if (isTripped()) {
+        mPosition = false;
+    } else if (not isWaitingToTrip()) {
         mPosition = mPositionCommand;
     }
 }
-- 
2.43.0


From 8a11e79ef15825e285ffe785b7a0f20492fe9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 28/56] fix: constant power load moves its current between
 nodes once per step, not once per iteration

---
 .../ConstantPowerLoad/EpsConstantPowerLoad.cpp           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
index 11aa032..5aa98de 100644
--- a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
+++ b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
@@ -194,11 +194,16 @@ void EpsConstantPowerLoad::updateState(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in] dt        (s)  Link time step
 ///
-/// @details  Updates the link during the minor time step
+/// @details  Updates the link during the minor time step.  This refreshes the link's flux and power
+///           from the last minor step's solution, but doesn't transport the flux between the nodes,
+///           since that must only happen once per major step in computeFlows.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void EpsConstantPowerLoad::minorStep(const double dt, const int)
 {
-    computeFlows(dt);
+    mPotentialDrop = getDeltaPotential();
+    computeFlux();
+    updateFlux(dt, mFlux);
+    computePower();
     step(dt);
 }
 
-- 
2.43.0


From e9fdfccfda7db9678001508ab108a4a026492521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 29/56] fix: an empty battery takes charge again, and cell
 failures act when no cell carries current

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 031cb64..d55ffd9 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -374,22 +374,24 @@ void GunnsElectBattery::updateFlux(const double timeStep, const double flux __at
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsElectBattery::updateCells(const double timeStep)
 {
-    /// - Count the number of cells contributing to the load.
+    /// - Count the number of cells contributing to the load.  When discharging, these are the cells
+    ///   that still hold charge.  When charging, these are all cells that are able to take charge,
+    ///   including empty ones.
     int count = 0;
     for (unsigned int i = 0; i < mNumCells; i++) {
-        if (mCells[i].getEffectiveSoc() > DBL_EPSILON) {
+        const double available = (mFlux < 0.0) ? mCells[i].getEffectiveCapacity()
+                                               : mCells[i].getEffectiveSoc();
+        if (available > DBL_EPSILON) {
             count++;
         }
     }
 
     /// - The link flux (current) is divided by the number of contributing cells and then passed to
     ///   all the cells to integrate.  Cells that are not contributing will ignore the current in
-    ///   the cell model.
-    if (count > 0) {
-        const double current = mFlux / count;
-        for (unsigned int i = 0; i < mNumCells; i++) {
-            mCells[i].updateSoc(current, timeStep, mSocVocTable);
-        }
+    ///   the cell model, but are still updated for their failures.
+    const double current = (count > 0) ? mFlux / count : 0.0;
+    for (unsigned int i = 0; i < mNumCells; i++) {
+        mCells[i].updateSoc(current, timeStep, mSocVocTable);
     }
 }
 
-- 
2.43.0


From 23098a1ec14ae99a2b34023b1fa9612da2a62c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 30/56] fix: a converter output judges a new solution with that
 solution's current, not the rejected one's

---
 aspects/electrical/Converter/GunnsElectConverterOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
index 44d5a21..0ab8547 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
@@ -525,7 +525,9 @@ GunnsBasicLink::SolutionResult GunnsElectConverterOutput::confirmSolutionAccepta
         updateBias(result, convergedStep, false);
 
         /// - After the network as converged, compute currents, powers and check for trips.
+        ///   This solution is a new one, so any rejection of the previous one no longer applies.
         if ((convergedStep > 0) and (REJECT != result)) {
+            mInputPowerValid = true;
             computeInputPower(mInputPower);
 
             /// - Sensors are optional; if a sensor exists then the trip uses its sensed value of
-- 
2.43.0


From 7eadc7c9cb0837b256500adec962f5054cd3eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 31/56] fix: a power-regulating converter output in its
 over-current limit supplies the limit current

---
 .../electrical/Converter/GunnsElectConverterOutput.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
index 0ab8547..a6d6e02 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
@@ -472,12 +472,10 @@ void GunnsElectConverterOutput::computeRegulationSources(double& conductance, do
             voltage = static_cast<double>(mOutputUnderVoltageTrip.getLimit());
         } else {
             conductance = static_cast<double>(FLT_EPSILON);
-            if (CURRENT == mRegulatorType) {
-                if (LIMIT_OC == mLimitState) {
-                    current = applyBlockage(static_cast<double>(mOutputOverCurrentTrip.getLimit()));
-                } else {
-                    current = applyBlockage(mSetpoint);
-                }
+            if (LIMIT_OC == mLimitState) {
+                current = applyBlockage(static_cast<double>(mOutputOverCurrentTrip.getLimit()));
+            } else if (CURRENT == mRegulatorType) {
+                current = applyBlockage(mSetpoint);
             } else if (mSetpoint > 0.0 and mLoadResistance > 0.0) {
                 current = applyBlockage(std::sqrt(mSetpoint / mLoadResistance));
             }
-- 
2.43.0


From c608194b8ca0bc909ae600e554c95d36516d86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 32/56] fix: a converter input that settles at negative voltage
 while drawing current goes to its overloaded state

---
 aspects/electrical/Converter/GunnsElectConverterInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterInput.cpp b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
index 56865a1..5e00ced 100755
--- a/aspects/electrical/Converter/GunnsElectConverterInput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
@@ -479,7 +479,7 @@ GunnsBasicLink::SolutionResult GunnsElectConverterInput::confirmSolutionAcceptab
         if (CONFIRM == result and not
                 (mInputOverVoltageTrip.isTripped() or mInputUnderVoltageTrip.isTripped() or mOverloadedState)) {
             computeInputVoltage(mInputVoltage);
-            if (mInputPower > 0.0 and mPotentialVector[0] <= 0.0) {
+            if ((mInputPower > 0.0 or mSourceVector[0] < 0.0) and mPotentialVector[0] <= 0.0) {
                 mOverloadedState = true;
                 result           = REJECT;
             }
-- 
2.43.0


From 5c5202fa7262fe2de3f6faba06719817623613a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 33/56] fix: a solution that is not a number is never taken as
 converged

---
 core/Gunns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index abc2ea5..e294d48 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1164,7 +1164,8 @@ bool Gunns::checkSystemConvergence(const int minorStep)
     for (int node = 0; node < mNetworkSize; ++node) {
 
         mNodesConvergence[node] = std::fabs(mMinorPotentialVector[node] - mPotentialVector[node]);
-        if (mNodesConvergence[node] > mConvergenceTolerance) {
+        /// - The comparison is written so that a delta that is not a number fails to converge.
+        if (not (mNodesConvergence[node] <= mConvergenceTolerance)) {
             lastNonConvergingNode = node;
 
             /// - Pause recording minor step potentials when the recorded node fails to converge.
-- 
2.43.0


From b5945393a90ad1b1312b1cf665cdbc9ae044029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 34/56] fix: 3-way check valve path B uses its own opening
 pressure

GunnsFluid3WayCheckValve passed path A's opening pressure differential to
both valve paths, so path B's configured value was never used.
---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..c3a28ab 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -304,7 +304,7 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From c1cde70ffb1148710b7b02621ff689e684192cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 35/56] fix: condensing heat exchanger does not abort on a
 vanishing steam flow

At flow rates barely above DBL_EPSILON, or when nearly all of a very small
flow condensed, the remaining internal fluid flow fell below what
PolyFluid::addState accepts.  The exception it throws was reported by the
flow orchestrator as a failed transport loop and ended the run.  Flows below
the transport threshold are now skipped, and that much fluid always remains.
---
 aspects/fluid/conductor/GunnsFluidCondensingHx.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
index 03c2893..b711dbd 100644
--- a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
+++ b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
@@ -361,7 +361,7 @@ void GunnsFluidCondensingHx::updateHeatExchanger(const double dt __attribute__((
 
     /// - Skip if mass flow rate is too small.  Condensing heat exchangers are specific applications
     ///   designed for only one flow direction, so for reverse flow we don't do anything.
-    if (mFlowRate > DBL_EPSILON) {
+    if (mFlowRate > m100EpsilonLimit) {
 
         const FluidProperties* propertiesH2O = mNodes[0]->getOutflow()->getProperties(FluidProperties::GUNNS_H2O);
 
@@ -452,8 +452,9 @@ void GunnsFluidCondensingHx::updateHeatExchanger(const double dt __attribute__((
                 const double qLatent        = qCondense  / (1.0 + cpDew / cpLatent);
                 qSensible                   = qDew + qCondense - qLatent;
 
-                /// - Update actual condensation rate and remove it from the internal fluid.
-                const double condensationRate = qLatent / deltaHvap;
+                /// - Update actual condensation rate and remove it from the internal fluid.  Leave
+                ///   enough fluid for a defined mixture when nearly all of a small flow condenses.
+                const double condensationRate = std::min(qLatent / deltaHvap, mDot - m100EpsilonLimit);
                 mCondensationRate += condensationRate;
                 mInternalFluid->addState(mCondensateFluid, -condensationRate);
                 mInternalFluid->setPressure(mNodes[0]->getPotential());
-- 
2.43.0


From 35de1ee3fe9fe1a4b6f6c954699a6c44bcf0732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 36/56] fix: emptied fluid node does not abort on a rounding
 boundary

integrateFlows tested (oldMass + inMass - inflowOutMass) against DBL_EPSILON
but mixFluidMasses tests (inMass - inflowOutMass) + oldMass and throws below
it, so a node left with about DBL_EPSILON kg could end the run.
---
 core/GunnsFluidNode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidNode.cpp b/core/GunnsFluidNode.cpp
index c74390c..15d1ff9 100755
--- a/core/GunnsFluidNode.cpp
+++ b/core/GunnsFluidNode.cpp
@@ -640,9 +640,12 @@ void GunnsFluidNode::integrateFlows(const double dt)
                 mContent.getTraceCompounds()->flowOut(contentOutMass / mContent.getMWeight());
             }
 
-            if (oldMass + inMass - inflowOutMass >= DBL_EPSILON) {
+            /// - Sum in the same order as mixFluidMasses, so that rounding can't pass a total mass
+            ///   here that it rejects.
+            const double netInMass = inMass - inflowOutMass;
+            if (netInMass + oldMass >= DBL_EPSILON) {
                 GunnsFluidUtils::mixFluidMasses(&mContent, oldMass,
-                                                &mInflow,  (inMass - inflowOutMass),
+                                                &mInflow,  netInMass,
                                                 mNumFluidTypes);
             } else {
                 /// - This can happen if a link flows less into the node than what it made the
-- 
2.43.0


From 1996dc615a7aeb0c726399aff7089e5307ab2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 37/56] fix: crew metabolic links deliver the demanded mass
 rates and share the node's O2 limit

---
 aspects/fluid/source/GunnsFluidMetabolic.cpp  | 17 +++++++++++++----
 aspects/fluid/source/GunnsFluidMetabolic2.cpp |  7 +++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMetabolic.cpp b/aspects/fluid/source/GunnsFluidMetabolic.cpp
index 5743f58..c588b25 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic.cpp
@@ -395,14 +395,16 @@ void GunnsFluidMetabolic::updateState(const double dt)
         mProducedH2O   = 0.0;
         mProducedHeat  = 0.0;
         for (int i = 0; i < GunnsFluidMetabolic::NO_METABOLIC; ++i) {
-            /// - O2 consumption rate is limited by the O2 mass in the node.
-            mConsumedO2   += std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
-                                   mNodes[1]->getContent()->getMass()) / dt,
-                                  mNCrew[i] * mO2ConsumptionRate[i]);
+            mConsumedO2   += mNCrew[i] * mO2ConsumptionRate[i];
             mProducedCO2  += mNCrew[i] * mCO2ProductionRate[i];
             mProducedH2O  += mNCrew[i] * mH2OProductionRate[i];
             mProducedHeat += mNCrew[i] * mHeatProductionRate[i];
         }
+
+        /// - Total O2 consumption rate is limited by the O2 mass in the node.
+        mConsumedO2 = std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
+                                mNodes[1]->getContent()->getMass()) / dt, mConsumedO2);
+
         const double flowDemand = mProducedH2O + mProducedCO2 - mConsumedO2;
 
         if (std::fabs(flowDemand) <= DBL_EPSILON) {
@@ -445,6 +447,13 @@ void GunnsFluidMetabolic::updateFluid(const double dt       __attribute__((unuse
         /// - Update output atmosphere temperature.
         mNodes[1]->collectHeatFlux(mProducedHeat);
         mInternalFluid->setTemperature(mNodes[1]->getContent()->getTemperature());
+
+        /// - The base class converts the molar flux to mass flow rate with the node's molecular
+        ///   weight, but what is transported is the internal fluid at the demanded mass rate.
+        mFlowRate = mFlowDemand;
+        if (mMalfBlockageFlag) {
+            mFlowRate *= (1.0 - mMalfBlockageValue);
+        }
     }
 }
 
diff --git a/aspects/fluid/source/GunnsFluidMetabolic2.cpp b/aspects/fluid/source/GunnsFluidMetabolic2.cpp
index 0bb51b4..bad7137 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic2.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic2.cpp
@@ -753,6 +753,13 @@ void GunnsFluidMetabolic2::updateFluid(const double dt       __attribute__((unus
         /// - Update output atmosphere temperature.
         mNodes[1]->collectHeatFlux(mProducedHeat);
         mInternalFluid->setTemperature(mNodes[1]->getContent()->getTemperature());
+
+        /// - The base class converts the molar flux to mass flow rate with the node's molecular
+        ///   weight, but what is transported is the internal fluid at the demanded mass rate.
+        mFlowRate = mFlowDemand;
+        if (mMalfBlockageFlag) {
+            mFlowRate *= (1.0 - mMalfBlockageValue);
+        }
     }
 }
 
-- 
2.43.0


From bc3383f7511198f1d40acb4fb57b6ffb7f03a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 38/56] fix: adsorber keeps trace compounds positive in reverse
 flow and clears its stale source

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..7956cbc 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -411,6 +411,10 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
                 mSourceVector[0] = mSorbtionFlowRate / mSorbtionFluid->getMWeight();
                 mSourceVector[1] = 0.0;
             }
+        } else {
+            /// - Nothing is sorbed, so don't leave the last sorption in the source vector.
+            mSourceVector[0] = 0.0;
+            mSourceVector[1] = 0.0;
         }
     }
 }
@@ -438,7 +442,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From e5237de29c73741661e81e21816f28ae12777665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 39/56] fix: mixing a fluid without trace compounds keeps the
 mixture's mole fractions right

---
 aspects/fluid/fluid/PolyFluid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 7576699..39a4d4c 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -1067,10 +1067,15 @@ void PolyFluid::addState(const PolyFluid* src, const double flowRate)
     ///   supposed to change it.
     GunnsFluidTraceCompounds* srcTraceCompounds = src->getTraceCompounds();
     double                    srcMWeight        = src->getMWeight();
-    if (mTraceCompounds and srcTraceCompounds and srcMWeight > DBL_EPSILON) {
+    if (mTraceCompounds) {
         const double savedMole = mMole;
         mMole = moleFlowRate;
-        mTraceCompounds->flowIn(*srcTraceCompounds, srcFlowRate / srcMWeight);
+        if (srcTraceCompounds and srcMWeight > DBL_EPSILON) {
+            mTraceCompounds->flowIn(*srcTraceCompounds, srcFlowRate / srcMWeight);
+        } else {
+            /// - A source without trace compounds still dilutes (or concentrates) ours.
+            mTraceCompounds->updateMoleFractions();
+        }
         mMole = savedMole;
     }
 }
-- 
2.43.0


From 17aef1f5d65dee1de889fca5cd5237eb1e3ca62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 40/56] fix: reactor heats the flow in either direction and
 clears its stale source

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index 37338fd..699d755 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -710,8 +710,10 @@ void GunnsFluidReactor::updateTemperature(const double dt __attribute__((unused)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidReactor::addRxnHeat(const double dt)
 {
-    const double newHeat = mFlowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
-    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / mFlowRate ));
+    /// - The flow magnitude is used so that the heat warms the flow in either flow direction.
+    const double flowRate = std::fabs(mFlowRate);
+    const double newHeat  = flowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
+    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / flowRate ));
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -761,6 +763,10 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
 {
     if (checkValidPortNumber(toPort) && checkValidPortNumber(fromPort)) {
 
+        /// - Clear the source flows so that a stopped flow doesn't leave the last pass's in effect.
+        mSourceVector[fromPort] = 0.0;
+        mSourceVector[toPort]   = 0.0;
+
         if (mFlowRate > m100EpsilonLimit) {
 
             /// - Move the the conduction flow with mInternalFluid from the upstream node to the
@@ -773,8 +779,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[toPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[toPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
@@ -796,8 +800,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[fromPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[fromPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
-- 
2.43.0


From 1cdc6ccb863ac42687490615c4b8dd100c253d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 41/56] fix: adsorbed trace compound does not index the bulk
 fluid when the flow stops

---
 aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
index 6eee639..bd30ce1 100644
--- a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
@@ -280,8 +280,10 @@ void GunnsFluidAdsorptionCompound::sorb(const double dt, const double tAvg, cons
 
         /// - Adsorption rate is the efficiency times the mass flow thru.
         double mdotThru = 0.0;
-        if (mTraceCompound and std::fabs(mdot) > m100EpsilonLimit) {
-            mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+        if (mTraceCompound) {
+            if (std::fabs(mdot) > m100EpsilonLimit) {
+                mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+            }
         } else {
             mdotThru = mFluid->getMassFraction(mIndex) * std::fabs(mdot);
         }
-- 
2.43.0


From e2d8cc92a22a0ab10294947db3601338e97f4234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 42/56] fix: multi-separator gives each separated fluid to its
 own port

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..c1cdefb 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -568,8 +568,9 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
 
     /// - Build the link source vector.  Each separated fluid flow from last pass is added to its
     ///   respective exit port, and subtracted from the downstream port of the bulk through-flow.
-    mSourceVector[0] = 0.0;
-    mSourceVector[1] = 0.0;
+    for (int port=0; port<mNumPorts; ++port) {
+        mSourceVector[port] = 0.0;
+    }
     for (int i=0; i<mNumSepTypes; ++i) {
         if (mPotentialVector[0] >= mPotentialVector[1]) {
             mSourceVector[1] -= mSepBufferThru[i];
@@ -577,7 +578,7 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
             mSourceVector[0] -= mSepBufferThru[i];
         }
         mSepBufferExit[i] = mSepBufferThru[i];
-        mSourceVector[mSepPort[i]] = mSepBufferExit[i];
+        mSourceVector[mSepPort[i]] += mSepBufferExit[i];
     }
 }
 
@@ -683,11 +684,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
+    for (int fluid=0; fluid<mNumSepTypes; ++fluid) {
         mSepFluid[fluid].setTemperature(temperature);
         const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[fluid]]->collectInflux(mdot, &mSepFluid[fluid]);
         }
     }
 
-- 
2.43.0


From 1e113c653cd74fcf234a5a2605fb352db9ac75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 43/56] fix: multi-separator delivers the trace compounds that
 pass through it

---
 .../fluid/source/GunnsFluidMultiSeparator.cpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index c1cdefb..f728312 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -699,7 +699,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -735,14 +735,24 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
                 mInternalFluid->setMoleAndMoleFractions(exitFlux, mWorkMoleFractions);
                 mInternalFluid->setTemperature(temperature);
             }
+        } else {
+            mInternalFluid->setMole(exitFlux);
         }
 
-        /// - Update trace compound mole fractions relative to the moles remaining in the
-        ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
-            tc->updateMoleFractions();
+        if (exitFlux > DBL_EPSILON) {
+            /// - Update trace compound mole fractions relative to the moles remaining in the
+            ///   internal fluid, before given to the downstream node.
+            if (tc) {
+                tc->updateMoleFractions();
+            }
+            mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
+        } else if (tc) {
+            /// - When all of the bulk fluid is separated, the remaining trace compounds are given
+            ///   directly to the downstream node.
+            for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+                static_cast<GunnsFluidNode*>(mNodes[downstreamPort])->collectTc(i, mWorkTcMassFlowRates[i]);
+            }
         }
-        mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
     }
 }
 
-- 
2.43.0


From 5f989c313fc3abf3a74d552b9823068e019f1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 44/56] fix: fire source blockage also limits its trace
 compounds

---
 aspects/fluid/source/GunnsFluidFireSource.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidFireSource.cpp b/aspects/fluid/source/GunnsFluidFireSource.cpp
index 66072d1..2bc5159 100644
--- a/aspects/fluid/source/GunnsFluidFireSource.cpp
+++ b/aspects/fluid/source/GunnsFluidFireSource.cpp
@@ -272,6 +272,11 @@ void GunnsFluidFireSource::step(const double dt)
         mFlowO2   *= (1.0 - mMalfBlockageValue);
         mFlowCO2  *= (1.0 - mMalfBlockageValue);
         mFlowH2O  *= (1.0 - mMalfBlockageValue);
+        if (mInternalFluid->getTraceCompounds()) {
+            for (int i = 0; i < mInternalFluid->getTraceCompounds()->getConfig()->mNTypes; ++i) {
+                mTraceCompoundMassRates[i] *= (1.0 - mMalfBlockageValue);
+            }
+        }
     }
 
     /// - Convert the mass flow rate demand to molar flow rate based on the molecular weight of the
-- 
2.43.0


From 8b2bab1c28fd63d54e8925d89215ee25a2c074b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 45/56] fix: sorption bed gives trace compounds it desorbs into
 still gas to the node

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index 2b9ee6f..a955a92 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -1025,7 +1025,16 @@ void GunnsFluidSorptionBed::transportFlows(const double dt)
 
     /// - Transport flow between nodes and correct the source vector for sorption.
     mNodes[sourcePort]->collectOutflux(std::fabs(mFlowRate));
-    mNodes[sinkPort]->collectInflux(exitFlow, mInternalFluid);
+    GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+    if (exitFlow > m100EpsilonLimit) {
+        mNodes[sinkPort]->collectInflux(exitFlow, mInternalFluid);
+    } else if (tc and dt > DBL_EPSILON and sourceDensity > DBL_EPSILON) {
+        /// - When there is no bulk flow to carry the trace compounds, give them directly to the
+        ///   downstream node.
+        for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+            static_cast<GunnsFluidNode*>(mNodes[sinkPort])->collectTc(i, tc->getMasses()[i]);
+        }
+    }
     mSourceVector[sourcePort] = 0.0;
     mSourceVector[sinkPort]   = bulkDesorbMoleRate;
 
-- 
2.43.0


From 835a3f2c81b009f50ec90390ab3a515bd88afcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 46/56] fix: every sorption bed segment's trace compounds
 desorbed into still gas reach the node

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index a955a92..b0f9c46 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -1029,10 +1029,17 @@ void GunnsFluidSorptionBed::transportFlows(const double dt)
     if (exitFlow > m100EpsilonLimit) {
         mNodes[sinkPort]->collectInflux(exitFlow, mInternalFluid);
     } else if (tc and dt > DBL_EPSILON and sourceDensity > DBL_EPSILON) {
-        /// - When there is no bulk flow to carry the trace compounds, give them directly to the
-        ///   downstream node.
-        for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
-            static_cast<GunnsFluidNode*>(mNodes[sinkPort])->collectTc(i, tc->getMasses()[i]);
+        /// - When there is no bulk flow to carry the desorbed trace compounds, give them directly to
+        ///   the downstream node.
+        for (unsigned int i=0; i<mNSegments; ++i) {
+            for (unsigned int j=0; j<mSegments[i].getNSorbates(); ++j) {
+                const GunnsFluidSorptionBedSorbate& sorbate = mSegments[i].mSorbates[j];
+                const GunnsFluidSorptionBedFluidIndex* index = sorbate.getFluidIndexes();
+                if (index->mFluid < 0 and index->mTc >= 0) {
+                    static_cast<GunnsFluidNode*>(mNodes[sinkPort])->collectTc(index->mTc,
+                            -sorbate.mAdsorptionRate * sorbate.getProperties()->getCompound()->mMWeight);
+                }
+            }
         }
     }
     mSourceVector[sourcePort] = 0.0;
-- 
2.43.0


From faf6e0124fe7719bd3890c8ab09f18f9e29a2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:05 +0000
Subject: [PATCH 47/56] fix: multi-separator that passes almost nothing through
 does not abort on rounding

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index f728312..91bb63c 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -725,7 +725,12 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
             }
             for (int i=0; i<mNumSepTypes; ++i) {
                 mWorkMoleFractions[mSepIndex[i]] -= mSepBufferThru[i];
-                exitFlux                         -= mSepBufferThru[i];
+            }
+            /// - Sum what remains rather than subtract from the through flow, so that rounding can't
+            ///   unbalance the fractions when nearly all of the flow is separated.
+            exitFlux = 0.0;
+            for (int i=0; i<nConstituents; ++i) {
+                exitFlux += mWorkMoleFractions[i];
             }
             if (exitFlux > DBL_EPSILON) {
                 /// - Now moleFractions is normalized back into fractions.
-- 
2.43.0


From 62a6d7bef5a4a2ae3e65b46a57b1bf51a684dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:33 +0000
Subject: [PATCH 48/56] fix: network capacitances are lost in steps with
 several minor steps

---
 core/Gunns.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index e294d48..a27d578 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1532,8 +1532,10 @@ void Gunns::perturbNetworkCapacitances()
             for (int i=0,j=offset; i<mNetworkSize; ++i,++j) {
                 mNetCapDeltaPotential[j] = mPotentialVector[i];
             }
-        } else {
-            /// - Reset the node's capacitance term when not requested.
+        } else if (mLastMinorStep < 2) {
+            /// - Reset the node's capacitance term when not requested.  This is not repeated in later
+            ///   minor steps of non-linear networks, which would lose the value that was requested and
+            ///   computed in the first one.
             mNodes[node]->setNetworkCapacitance(0.0);
         }
     }
-- 
2.43.0


From 6ad13a753675968a22038e037923fc4ccc56bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:33 +0000
Subject: [PATCH 49/56] fix: joints made inside a super-network are lost when
 it is added to another one

---
 core/network/GunnsSuperNetworkBase.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/network/GunnsSuperNetworkBase.cpp b/core/network/GunnsSuperNetworkBase.cpp
index 377ad54..a177864 100755
--- a/core/network/GunnsSuperNetworkBase.cpp
+++ b/core/network/GunnsSuperNetworkBase.cpp
@@ -177,6 +177,22 @@ void GunnsSuperNetworkBase::addSubNetwork(GunnsSuperNetworkBase* network)
             otherSubs[i]->setNodeOffset(0, 0);
             addSubNetwork(otherSubs[i]);
         }
+
+        /// - Take over the joints made in the given super-network.  Their joint networks are now
+        ///   among our sub-networks, and their indexes shift by the number of joints we already have.
+        std::vector<GunnsSubNetworkJoint*> otherJoints;
+        otherJoints.swap(network->mJoints);
+        std::vector<GunnsNetworkBase*> otherJointNetworks;
+        otherJointNetworks.swap(network->mJointNetworks);
+        network->mJointsIndeces.clear();
+        network->numJoints = 0;
+        for (unsigned int i=0; i<otherJointNetworks.size(); ++i) {
+            otherJointNetworks[i]->setJointIndex(otherJointNetworks[i]->getJointIndex() + mJoints.size());
+        }
+        mJoints.insert(mJoints.end(), otherJoints.begin(), otherJoints.end());
+        mJointNetworks.insert(mJointNetworks.end(), otherJointNetworks.begin(), otherJointNetworks.end());
+        numJoints = mJoints.size();
+
         network->empty();
 
     } catch (TsInitializationException& e) {
-- 
2.43.0


From ddb17543ba225b17deef693fc69cfc8d5c9bcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 50/56] fix: partial pressure rate edit that completes while
 another goes on overshoots its target

---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index 900aa92..2a28788 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -339,6 +339,7 @@ void GunnsFluidTank::updateState(const double dt)
 
             const double rate = std::fabs(mEditPartialPressureRateValue[i]);
             if (rate < DBL_EPSILON) {
+                mInternalFluid->setMass(i, 0.0);
                 mEditPartialPressureRateFlag[i] = false;
                 GUNNS_WARNING("partial pressure rate edit canceled, zero rate not allowed.");
 
@@ -371,6 +372,9 @@ void GunnsFluidTank::updateState(const double dt)
                                                                                 mNodes[0]->getVolume();
                     mInternalFluid->setMass(i, constituentMass);
                 } else {
+                    /// A constituent that has reached its target should have no further portion of
+                    /// the internal fluid while the edits of other constituents continue.
+                    mInternalFluid->setMass(i, 0.0);
                     mEditPartialPressureRateFlag[i] = false;
                 }
             }
-- 
2.43.0


From 5bb0352a7a70fa9c582905b3835159349b970346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:03 +0000
Subject: [PATCH 51/56] fix: a refused persistent direct connection keeps its
 disconnection on restart

On restart the plug requests disconnection and then attempts its direct
connection. When the attempt is refused the disconnection request was
overwritten with no connection, leaving the plug's unplugged end at its default
node.
---
 core/GunnsBasicJumperPlug.cpp | 4 +++-
 core/GunnsFluidJumperPlug.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/GunnsBasicJumperPlug.cpp b/core/GunnsBasicJumperPlug.cpp
index 11575ab..6f305e3 100644
--- a/core/GunnsBasicJumperPlug.cpp
+++ b/core/GunnsBasicJumperPlug.cpp
@@ -208,7 +208,9 @@ void GunnsBasicJumperPlug::processDirectConnectionRequest()
         mDirectConnectionRequest <= getNoConnection() and
         mDirectConnectionRequest != getActiveConnection()) {
 
-        setDisconnectionRequest(getActiveConnection());
+        if (getActiveConnection() != getNoConnection()) {
+            setDisconnectionRequest(getActiveConnection());
+        }
         if (mDirectConnectionRequest != getNoConnection()) {
 
             /// - Check to make sure the desired socket doesn't already have another connection, and
diff --git a/core/GunnsFluidJumperPlug.cpp b/core/GunnsFluidJumperPlug.cpp
index 94e512e..69cd96c 100644
--- a/core/GunnsFluidJumperPlug.cpp
+++ b/core/GunnsFluidJumperPlug.cpp
@@ -76,7 +76,9 @@ void GunnsFluidJumperPlug::processDirectConnectionRequest()
         mDirectConnectionRequest <= getNoConnection() and
         mDirectConnectionRequest != getActiveConnection()) {
 
-        setDisconnectionRequest(getActiveConnection());
+        if (getActiveConnection() != getNoConnection()) {
+            setDisconnectionRequest(getActiveConnection());
+        }
         if (mDirectConnectionRequest != getNoConnection()) {
 
             /// - Check to make sure the desired socket doesn't already have another connection, and
-- 
2.43.0


From 76990fcc1261bf984132107ae0fd9c6d2a88f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 52/56] fix: the minor step log isn't resized while its file is
 being written

A new log size commanded in freeze cleared the buffer and restarted recording
while the asynchronous job was still writing the buffer to file.
---
 core/GunnsMinorStepLog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/GunnsMinorStepLog.cpp b/core/GunnsMinorStepLog.cpp
index 02ecc0e..41cd9ce 100755
--- a/core/GunnsMinorStepLog.cpp
+++ b/core/GunnsMinorStepLog.cpp
@@ -470,7 +470,9 @@ void GunnsMinorStepLog::updateAsync()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsMinorStepLog::updateFreeze()
 {
-    if (mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0) {
+    /// - The buffer is left alone while the async job writes it to file.
+    if (WRITING_FILE != mState and
+            mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0) {
         /// - Save a frame of data for sizing of frames after the vector has been cleared.
         GunnsMinorStepData saveFrame(mBuffer[0]);
 
-- 
2.43.0


From 36c2a48261d33a64cbfa05df44618b3544424ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:28 +0000
Subject: [PATCH 53/56] fix: successful steps of linear networks don't trigger
 the automatic log dump

The records of linear networks and of the worst-case timing mode end with the
CONFIRM result, so the automatic recording mode of the minor step log took each
of their successful steps for a failure and wrote a log file.  Tell the log
whether the step succeeded.
---
 core/Gunns.cpp             | 2 +-
 core/GunnsMinorStepLog.cpp | 9 +++++++--
 core/GunnsMinorStepLog.hh  | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a27d578..4cb0576 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -798,7 +798,7 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mStepLog.endMajorStep();
+    mStepLog.endMajorStep(isConverged);
 
     mSolveTime = mSolveTimeWorking;
     mStepTime  = GunnsInfraFunctions::clockTime() - startTime;
diff --git a/core/GunnsMinorStepLog.cpp b/core/GunnsMinorStepLog.cpp
index 41cd9ce..edd6407 100755
--- a/core/GunnsMinorStepLog.cpp
+++ b/core/GunnsMinorStepLog.cpp
@@ -424,14 +424,19 @@ void GunnsMinorStepLog::recordStepResult(const int decomposition, const GunnsMin
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  success  (--)  True if the solver finished the major step successfully.
+///
 /// @details  After the solver major step has completed, this initiates log file write from the
 ///           RECORD_AUTO state if the latest record has any non-success indication from the solver.
+///           The records of linear networks and of the worst-case timing mode end with the CONFIRM
+///           result, so the solver also tells us when the major step succeeded.
 ///
 /// @note  This should be the last function called by the solver in a major step.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsMinorStepLog::endMajorStep()
+void GunnsMinorStepLog::endMajorStep(const bool success)
 {
-    if (RECORDING_AUTO == mState and GunnsMinorStepData::SUCCESS != head().mSolutionResult) {
+    if (RECORDING_AUTO == mState and not success and
+            GunnsMinorStepData::SUCCESS != head().mSolutionResult) {
         initiateDump();
     }
 }
diff --git a/core/GunnsMinorStepLog.hh b/core/GunnsMinorStepLog.hh
index 6067682..a551db8 100755
--- a/core/GunnsMinorStepLog.hh
+++ b/core/GunnsMinorStepLog.hh
@@ -167,7 +167,7 @@ class GunnsMinorStepLog
         /// @brief  Records the given network solution results, closes out this step and goes to the next step in the buffer.
         void recordStepResult(const int decomposition, const GunnsMinorStepData::SolutionResults result);
         /// @brief  Closes out the major step, initiates automatic file output.
-        void endMajorStep();
+        void endMajorStep(const bool success = false);
         /// @brief  Asynchronous job function to write output data files to the file system.
         void updateAsync();
         /// @brief  Freeze job function to resize the log buffer.
-- 
2.43.0


From 0812ca9060ce48ef35982bbb7d46ac53d3c6f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:05 +0000
Subject: [PATCH 54/56] fix: sensor resolution rounding overflows for fine
 resolutions

---
 gunns-ts-models/common/sensors/SensorAnalog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gunns-ts-models/common/sensors/SensorAnalog.cpp b/gunns-ts-models/common/sensors/SensorAnalog.cpp
index 79359a1..0ec433a 100755
--- a/gunns-ts-models/common/sensors/SensorAnalog.cpp
+++ b/gunns-ts-models/common/sensors/SensorAnalog.cpp
@@ -527,6 +527,8 @@ void SensorAnalog::applyResolution()
     value = std::fabs(value);
 
     if (value > FLT_EPSILON) {
-        mSensedOutput = value * MsMath::round(mSensedOutput/value);
+        /// - Round in floating-point, the number of increments can exceed the range of an integer.
+        const double increments = static_cast<double>(mSensedOutput / value);
+        mSensedOutput = value * static_cast<float>(std::floor(increments + 0.5));
     }
 }
-- 
2.43.0


From 79932ceb740e6e3adaca132da24738e77b60ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 55/56] fix: smoke detector ignores its configured voltage
 conversion

---
 gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
index 7e0fd08..bfa2a06 100644
--- a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
+++ b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
@@ -152,6 +152,10 @@ void TsOpticSmokeDetector::initialize(
     configD.bitRecoveryTime      = configData.bitRecoveryTime;
     configD.obsOffValue          = configData.obsOffValue;
     configD.scatOffValue         = configData.scatOffValue;
+    configD.obsPercentVoltSlope  = configData.obsPercentVoltSlope;
+    configD.obsVoltIntercept     = configData.obsVoltIntercept;
+    configD.scatPercentVoltSlope = configData.scatPercentVoltSlope;
+    configD.scatVoltIntercept    = configData.scatVoltIntercept;
 
     configD.obsSensorConfigD.mMinRange     = configD.obsMinPercentage;
     configD.obsSensorConfigD.mOffValue     = configD.obsOffValue;
-- 
2.43.0


From 04130f75e6afb9d1e830f8570e1d395dc099b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 56/56] fix: gradient descent uses the previous epoch's cost
 when results come back out of order

---
 core/optimization/GunnsOptimGradientDescent.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/optimization/GunnsOptimGradientDescent.cpp b/core/optimization/GunnsOptimGradientDescent.cpp
index 5738697..cce02a7 100755
--- a/core/optimization/GunnsOptimGradientDescent.cpp
+++ b/core/optimization/GunnsOptimGradientDescent.cpp
@@ -463,6 +463,15 @@ void GunnsOptimGradientDescent::assignCost(const double cost, const double runId
     if (runIdReturned == mState->mRunId) {
         mState->mCostGradient = 0.0; // unused
         mState->mCost         = cost;
+        /// - Results that came back before this one were compared to the previous epoch's cost, so
+        ///   update their gradients.
+        for (unsigned int i=0; i<mGradients.size(); ++i) {
+            mGradients.at(i).mDeltaCost    = mGradients.at(i).mCost - cost;
+            mGradients.at(i).mCostGradient = 0.0;
+            if (std::fabs(mGradients.at(i).mDeltaState) > DBL_EPSILON) {
+                mGradients.at(i).mCostGradient = mGradients.at(i).mDeltaCost / mGradients.at(i).mDeltaState;
+            }
+        }
         return;
     }
 
-- 
2.43.0

