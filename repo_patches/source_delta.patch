From 50d8935d57938ee3b0cdedf8773527322bff11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 01/36] fix: keep the pressure output of a fluid bus side whose
 Supply role is forced

flipModesOnCapacitance zeroed the outgoing pressure also when the forced
Supply role had kept it from flipping to Demand, so the Demand side was
sent zero pressure for as long as its capacitance exceeded the limit.
---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..635eefb 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -556,8 +556,11 @@ void Distributed2WayBusFluid::flipModesOnCapacitance()
         flipToDemandMode();
         /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
         ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
-        ///   pass in demand mode.
-        mOutData.mSource = 0.0;
+        ///   pass in demand mode.  If the Supply role is forced then we didn't flip, so our pressure
+        ///   output stands.
+        if (isInDemandRole()) {
+            mOutData.mSource = 0.0;
+        }
     }
 }
 
-- 
2.43.0


From 4a430bf1c9f2ce2b483fae7fba151e299097bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 02/36] fix: decompose a rebuilt admittance matrix before
 solving with it

A matrix rebuilt in SLAVE or DUMMY mode, in a minor step that exceeded the
decomposition limit, or for a converged SOR solution was not decomposed, yet
the rebuild flag was cleared, so later NORMAL steps solved with a matrix that
had never been decomposed until some link changed its admittance.
---
 core/Gunns.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..9b15e23 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -966,7 +965,9 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
         buildAdmittanceMatrix();
         conditionAdmittanceMatrix();
         needDecomposition = true;
-        mRebuild = false;
+        /// - The flag remains set until the new matrix has been decomposed, so that the next solution
+        ///   doesn't use a matrix that hasn't been.
+        mRebuild = true;
     }
     mStepLog.recordLinkContributions();
 
@@ -1036,6 +1037,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     } else {
                         decompose(mAdmittanceMatrix, mNetworkSize);
                     }
+                    mRebuild = false;
                 } else {
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
-- 
2.43.0


From 5234b11e68a11a022b5206296303eb3cfc31a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 03/36] fix: condition floating nodes whatever the size of
 their conductances

A floating group of nodes was not recognised when the sum of its row in the
admittance matrix, zero but for round-off, exceeded DBL_EPSILON, and the
network then failed to decompose.
---
 core/Gunns.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 9b15e23..a169db4 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1620,8 +1620,9 @@ void Gunns::conditionAdmittanceMatrix()
             rowSum += mAdmittanceMatrix[index];
         }
 
-        if (std::fabs(rowSum) < DBL_EPSILON) {
-            const int diagonal = row*mNetworkSize+row;
+        /// - The row sum carries round-off in proportion to the terms in the row.
+        const int diagonal = row*mNetworkSize+row;
+        if (std::fabs(rowSum) < DBL_EPSILON * std::max(1.0, 4.0 * mAdmittanceMatrix[diagonal])) {
             mAdmittanceMatrix[diagonal] += std::max(mAdmittanceMatrix[diagonal], DBL_EPSILON) * 1.0E-15;
         }
     }
-- 
2.43.0


From b770ea83e8cba919e7290e1f6f7973e3abad558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 04/36] fix: find the islands when the island mode is turned on
 in run

The islands are found when the admittance matrix is built, so after a change of
the island mode the nodes had no or outdated islands until a link changed its
admittance.
---
 core/Gunns.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a169db4..7ed4c00 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1107,6 +1107,8 @@ void Gunns::checkStepInputs()
 
     if (mLastIslandMode != mIslandMode) {
         mLastIslandMode  = mIslandMode;
+        /// - Islands are found when the matrix is built.
+        mRebuild         = true;
         GUNNS_INFO("island mode changed to " << getIslandModeString() << ".");
     }
 
-- 
2.43.0


From 473bde688aa274f2b622458cdf60eb9dae97a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 05/36] fix: don't resize the minor step log while it is due to
 be written

Resizing cleared the log and resumed recording before the asynchronous function
had written the file, which then held an error text instead of the log.
---
 core/GunnsMinorStepLog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/GunnsMinorStepLog.cpp b/core/GunnsMinorStepLog.cpp
index 02ecc0e..879f30d 100755
--- a/core/GunnsMinorStepLog.cpp
+++ b/core/GunnsMinorStepLog.cpp
@@ -467,10 +467,12 @@ void GunnsMinorStepLog::updateAsync()
 ///
 /// @note  This should only be called in simulation initialization or freeze, because it can take
 ///        a long time complete and could cause frame overruns if called during run.
+///
+/// @note  Resizing waits until the asynchronous function has written a log that is still due.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsMinorStepLog::updateFreeze()
 {
-    if (mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0) {
+    if (WRITING_FILE != mState and mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0) {
         /// - Save a frame of data for sizing of frames after the vector has been cleared.
         GunnsMinorStepData saveFrame(mBuffer[0]);
 
-- 
2.43.0


From 57743559d29af0d761b43751ff3f9788b61f4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 06/36] fix: open a tripped switch when its fail closed
 malfunction is removed

---
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index c8a11f6..5f30013 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -287,7 +287,10 @@ void GunnsElectSwitchUtil2::updateState()
         mPosition = true;
     } else if (mMalfFailOpen) {
         mPosition = false;
-    } else if (not (isTripped() or isWaitingToTrip())) {
+    } else if (isTripped()) {
+        /// - A tripped switch opens when the fail closed malfunction is removed.
+        mPosition = false;
+    } else if (not isWaitingToTrip()) {
         mPosition = mPositionCommand;
     }
 }
-- 
2.43.0


From 6d83ff15266ffd9c22d72ed9dc7a228450956167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 07/36] fix: restore a switch's over-current protection when
 the malfunction ignoring it is removed

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 11 ++++++++---
 aspects/electrical/Switch/Switch.cpp               | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e227251..44a94d4 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -395,12 +395,17 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
         mActiveNegTripLimit = mDefaultNegTripLimit;
     }
 
-    // block/ignore current trips only when malf active other wise take the value from the signal ICD.
+    // block/ignore current trips only when malf active, and go back to the previous protection when
+    // the malf is removed.
     if (mMalfIgnoreCurrentTrip) {
+        if (!mLastMalfIgnoreCurrentTrip) {
+            mConfigDataCurrentProtection = mOverCurrentProtection;
+        }
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index d8d5676..00026e0 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -389,12 +389,17 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
         mActiveNegTripLimit = mDefaultNegTripLimit;
     }
 
-    // block/ignore current trips only when malf active other wise take the value from the signal ICD.
+    // block/ignore current trips only when malf active, and go back to the previous protection when
+    // the malf is removed.
     if (mMalfIgnoreCurrentTrip) {
+        if (!mLastMalfIgnoreCurrentTrip) {
+            mConfigDataCurrentProtection = mOverCurrentProtection;
+        }
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
-- 
2.43.0


From 6cc2586828d931e7ebe99de0c0dd247d4cc73ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 08/36] fix: open a tripped load switch when its fail closed
 malfunction is removed

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 3 ++-
 aspects/electrical/Switch/Switch.cpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index 44a94d4..5955367 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -436,7 +436,8 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
         // PR 41530:  close malfs shouldn't be applicable if the switch power is removed
         if (mMalfFailClosed) {
             mSwitchIsClosed = true;
-        } else if (mMalfFailOpen) {
+        } else if (mMalfFailOpen || mPosTrip || mNegTrip) {
+            // a tripped switch opens when the fail closed malf is removed
             mSwitchIsClosed = false;
         }
     }
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index 00026e0..3ae7b94 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -430,7 +430,8 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
         // PR 41530:  close malfs shouldn't be applicable if the switch power is removed
         if (mMalfFailClosed) {
             mSwitchIsClosed = true;
-        } else if (mMalfFailOpen) {
+        } else if (mMalfFailOpen || mPosTrip || mNegTrip) {
+            // a tripped switch opens when the fail closed malf is removed
             mSwitchIsClosed = false;
         }
     }
-- 
2.43.0


From d329c6ca7b956e1b2c6e1af0df06359b639b9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 09/36] fix: smoke detector uses its configured voltage terms
 and sensor configs

---
 gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
index 7e0fd08..07023b4 100644
--- a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
+++ b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
@@ -152,6 +152,12 @@ void TsOpticSmokeDetector::initialize(
     configD.bitRecoveryTime      = configData.bitRecoveryTime;
     configD.obsOffValue          = configData.obsOffValue;
     configD.scatOffValue         = configData.scatOffValue;
+    configD.obsPercentVoltSlope  = configData.obsPercentVoltSlope;
+    configD.obsVoltIntercept     = configData.obsVoltIntercept;
+    configD.scatPercentVoltSlope = configData.scatPercentVoltSlope;
+    configD.scatVoltIntercept    = configData.scatVoltIntercept;
+    configD.obsSensorConfigD     = configData.obsSensorConfigD;
+    configD.scatterSensorConfigD = configData.scatterSensorConfigD;
 
     configD.obsSensorConfigD.mMinRange     = configD.obsMinPercentage;
     configD.obsSensorConfigD.mOffValue     = configD.obsOffValue;
-- 
2.43.0


From 9fbdfb4613977a1e942a0101fc147b8ff516ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 10/36] fix: message filter bumps the oldest message, also when
 it is the first or only one remembered

---
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index fa3c65b..29d8597 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -97,7 +97,7 @@ void TsHsMsgStdFilter::purgeMessages()
 
     TsHsMessageMap::iterator oldest = mMessageMap.begin();
 
-    for (TsHsMessageMap::iterator iter = ++oldest; iter != mMessageMap.end(); iter++)
+    for (TsHsMessageMap::iterator iter = mMessageMap.begin(); iter != mMessageMap.end(); iter++)
     {
         if ((*iter).second.back() < (*oldest).second.back())
         {
-- 
2.43.0


From a3072c4d6b47ea549be7d55689dc0fb88307b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 11/36] fix: two threads removing the last queued message no
 longer both succeed

---
 ms-utils/simulation/hs/TsHsMsgQueue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.cpp b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
index 685917a..b4e8500 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
@@ -222,11 +222,15 @@ void TsHsMsgQueue::insertMsg(TsHsMsgQueueNode& node)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 bool TsHsMsgQueue::removeMsg(TsHsMsgQueueNode& node)
 {
-    // Return false if the the queue is empty
+    pthread_mutex_lock(&mMutex);
+
+    // Return false if the the queue is empty. This is checked under the lock, as another thread may
+    // be removing the last message.
     if (isEmpty())
+    {
+        pthread_mutex_unlock(&mMutex);
         return false;
-
-    pthread_mutex_lock(&mMutex);
+    }
 
     // Copy message at head of queue to return node
     node.mFile      = mHead->mFile;
-- 
2.43.0


From 1105073ba2b4d5a88c03f84a5f2903cede9a95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 12/36] fix: the text plugin keeps logging to its timestamped
 file after a restart

---
 ms-utils/simulation/hs/TsHsTextPlugin.cpp | 7 +++++--
 ms-utils/simulation/hs/TsHsTextPlugin.hh  | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.cpp b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
index cca809f..9d256fd 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
@@ -69,6 +69,7 @@ static std::string message_timestamp(time_t* unix_time)
 TsHsTextPlugin::TsHsTextPlugin(int id) :
     TsHsOutputPlugin(id),
     mFilename(""),
+    mFileTimestamp(""),
     mFirstpass(true),
     mOverwrite(true),
     mTryLockFailures(0),
@@ -94,7 +95,8 @@ TsHsTextPlugin::~TsHsTextPlugin()
 void TsHsTextPlugin::configure(const TsHsPluginConfig& configData)
 {
     mEnabled   = configData.mEnabled;
-    mFilename  = configData.mPath;
+    // If the file has already been created then keep logging to it across restarts.
+    mFilename  = configData.mPath + mFileTimestamp;
     mOverwrite = configData.mOverwrite;
     mBlocking  = configData.mBlocking;
 }
@@ -119,7 +121,8 @@ bool TsHsTextPlugin::init(void)
         // file, otherwise overwrite the existing one.
         if (!mOverwrite)
         {
-            mFilename += tsHsFileTimestamp();
+            mFileTimestamp = tsHsFileTimestamp();
+            mFilename += mFileTimestamp;
         }
 
         FILE* fp = fopen(mFilename.c_str(), "w");
diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.hh b/ms-utils/simulation/hs/TsHsTextPlugin.hh
index 73d4960..c9a424c 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.hh
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.hh
@@ -69,6 +69,7 @@ protected:
     bool insertMessage(const std::string& message);
 
     std::string     mFilename;        // ** (--) Output file name
+    std::string     mFileTimestamp;   // ** (--) Timestamp in the name of the created file, if any
     bool            mFirstpass;       // ** (--) Used to determine when to create a new file
     bool            mOverwrite;       // ** (--) Overwrite file or use multiple files with timestamps
     int             mTryLockFailures; // ** (--) Number of times trylock failed to get the lock (== number of dropped messages)
-- 
2.43.0


From 3a574ebb06f23ea46c4716117e90056e25e4c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 13/36] fix: the flow orchestrator no longer forces a link
 early when only nodes complete in its first pass

An update with no link able to go in the first pass was taken as stuck, although
nodes without inputs had been integrated in that pass and let links go next.  The
first incomplete link was forced ahead of its source node, with a warning.
---
 core/GunnsFluidFlowOrchestrator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/GunnsFluidFlowOrchestrator.cpp b/core/GunnsFluidFlowOrchestrator.cpp
index 2095f6e..d77e3b6 100755
--- a/core/GunnsFluidFlowOrchestrator.cpp
+++ b/core/GunnsFluidFlowOrchestrator.cpp
@@ -104,7 +104,10 @@ void GunnsFluidFlowOrchestrator::update(const double dt)
         mLinks[link]->computeFlows(dt);
         mLinkStates[link] = false;
     }
-    mNumIncompleteLinks = mNumLinks;
+
+    /// - The first pass can never be stuck: when no link can go yet, it still completes the nodes
+    ///   that have no input, so the links from them can go in the second pass.
+    mNumIncompleteLinks = mNumLinks + 1;
 
     /// - Initially flag all nodes as incomplete, except for the Ground node which is always
     ///   complete.
-- 
2.43.0


From 3a001e7a4f6aff7762114d71385acd270edf6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/36] fix: a boundary source that takes fluid out of a node
 takes its trace compounds at the node's concentration

As its documentation says.  Nothing was taken, as the fluid collecting the node's
inflows can't hold negative trace compounds.
---
 .../fluid/source/GunnsFluidSourceBoundary.cpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSourceBoundary.cpp b/aspects/fluid/source/GunnsFluidSourceBoundary.cpp
index d8629a5..ad2a794 100755
--- a/aspects/fluid/source/GunnsFluidSourceBoundary.cpp
+++ b/aspects/fluid/source/GunnsFluidSourceBoundary.cpp
@@ -386,6 +386,21 @@ void GunnsFluidSourceBoundary::transportFlows(const double dt)
             for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
                 static_cast<GunnsFluidNode*>(mNodes[0])->collectTc(i, mFlowRate * mTraceCompoundRates[i]);
             }
+        } else if (mFlowRate < 0.0) {
+            /// - When the bulk flow is *out* of the node, TC's are pulled out at the same
+            ///   concentration that already exists in the node.  The specified trace compound rates
+            ///   are ignored.  These are taken directly from the node, because the node's mixture of
+            ///   in-flowing fluids can't hold negative TC's.
+            tc->setMasses();
+            tc->updateMoleFractions();
+            const PolyFluid* content     = mNodes[0]->getContent();
+            const double     contentMass = content->getMass();
+            if (contentMass > DBL_EPSILON) {
+                const double* contentTc = content->getTraceCompounds()->getMasses();
+                for (int i = 0; i < tcConfig.mNTypes; ++i) {
+                    static_cast<GunnsFluidNode*>(mNodes[0])->collectTc(i, mFlowRate * contentTc[i] / contentMass);
+                }
+            }
         } else {
             /// - When there are bulk fluid flows, TC's are added to the bulk fluid, and will be
             ///   transported within the bulk fluid to the node in transportFluid() below.
@@ -393,9 +408,6 @@ void GunnsFluidSourceBoundary::transportFlows(const double dt)
                 tc->setMass(i, mInternalFluid->getMass() * mTraceCompoundRates[i]);
             }
             tc->updateMoleFractions();
-            ///@note  If flow demand is negative, and therefore the bulk flow is *out* of the node,
-            ///       then the specified trace compound rates are basically ignored, since TCs will
-            ///       be pulled out at the same concentration that already exists in the node.
         }
     }
 
-- 
2.43.0


From 33b5054890fdb5ef3e5fe362f4adea5114187dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 15/36] fix: a converter input waits no longer forever for an
 output that rejected a solution without changing it

---
 .../electrical/Converter/GunnsElectConverterOutput.hh    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.hh b/aspects/electrical/Converter/GunnsElectConverterOutput.hh
index 82e40b3..5906f3c 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.hh
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.hh
@@ -528,7 +528,7 @@ inline bool GunnsElectConverterOutput::isVoltageRegulator() const
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] convergedStep (--) Unused.
+/// @param[in] convergedStep (--) The minor step number since network convergence.
 /// @param[in] absoluteStep  (--) Unused.
 ///
 /// @returns  bool (--) Always returns true.
@@ -537,12 +537,13 @@ inline bool GunnsElectConverterOutput::isVoltageRegulator() const
 ///           invalid until we've confirmed the next minor step solution.  The solver resets the
 ///           potential vector to the previous value, and this becomes out of sync with our inputs
 ///           to the system of equations, so any calculation of flux and power based on those values
-///           may be incorrect.
+///           may be incorrect.  When the rejected solution was converged, the reset does not change
+///           the potentials, so a power that we confirmed for that solution remains valid.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-inline bool GunnsElectConverterOutput::resetLastMinorStep(const int convergedStep __attribute__((unused)),
+inline bool GunnsElectConverterOutput::resetLastMinorStep(const int convergedStep,
                                                           const int absoluteStep __attribute__((unused)))
 {
-    mInputPowerValid = false;
+    mInputPowerValid = mInputPowerValid and (convergedStep > 0);
     return true;
 }
 
-- 
2.43.0


From 5a0ff21c7eb685f922610bd09c1065eb03e6bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 16/36] fix: an input held at negative voltage by its own
 current is overloaded, also when its load vanished

---
 aspects/electrical/Converter/GunnsElectConverterInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterInput.cpp b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
index 56865a1..5e00ced 100755
--- a/aspects/electrical/Converter/GunnsElectConverterInput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
@@ -479,7 +479,7 @@ GunnsBasicLink::SolutionResult GunnsElectConverterInput::confirmSolutionAcceptab
         if (CONFIRM == result and not
                 (mInputOverVoltageTrip.isTripped() or mInputUnderVoltageTrip.isTripped() or mOverloadedState)) {
             computeInputVoltage(mInputVoltage);
-            if (mInputPower > 0.0 and mPotentialVector[0] <= 0.0) {
+            if ((mInputPower > 0.0 or mSourceVector[0] < 0.0) and mPotentialVector[0] <= 0.0) {
                 mOverloadedState = true;
                 result           = REJECT;
             }
-- 
2.43.0


From 8fc1273361b32a64e3756a7db18835971fe5e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 17/36] fix: a power regulator in its over-current limit
 regulates to the limit

---
 .../electrical/Converter/GunnsElectConverterOutput.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
index 44d5a21..645483d 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
@@ -472,12 +472,10 @@ void GunnsElectConverterOutput::computeRegulationSources(double& conductance, do
             voltage = static_cast<double>(mOutputUnderVoltageTrip.getLimit());
         } else {
             conductance = static_cast<double>(FLT_EPSILON);
-            if (CURRENT == mRegulatorType) {
-                if (LIMIT_OC == mLimitState) {
-                    current = applyBlockage(static_cast<double>(mOutputOverCurrentTrip.getLimit()));
-                } else {
-                    current = applyBlockage(mSetpoint);
-                }
+            if (LIMIT_OC == mLimitState) {
+                current = applyBlockage(static_cast<double>(mOutputOverCurrentTrip.getLimit()));
+            } else if (CURRENT == mRegulatorType) {
+                current = applyBlockage(mSetpoint);
             } else if (mSetpoint > 0.0 and mLoadResistance > 0.0) {
                 current = applyBlockage(std::sqrt(mSetpoint / mLoadResistance));
             }
-- 
2.43.0


From ee8ce859525a615a3e06fa3fe865e60c5e2f65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 18/36] fix: SwitchElect transports the flow of the accepted
 solution only

SwitchElect::confirmSolutionAcceptable called transportFlux() on every converged minor step, so the nodes' influx and
outflux summed the flows of all the step's solutions, rejected ones included, instead of the flow of the accepted one.
---
 aspects/electrical/Switch/SwitchElect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index a270a72..5482495 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -157,10 +157,11 @@ void SwitchElect::updateState(const double timeStep __attribute__((unused))) {
 
 /////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   timeStep  (s)  time step
-/// @details  Method for saving dt
+/// @details  Method for saving dt, and computing & transporting the flow of the accepted solution
 /////////////////////////////////////////////////////////////////////////////////////////////////
 void SwitchElect::computeFlows(const double timeStep) {
     mTimeStep = timeStep;
+    GunnsBasicConductor::computeFlows(timeStep);
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////
@@ -179,7 +180,6 @@ GunnsBasicLink::SolutionResult SwitchElect::confirmSolutionAcceptable(
       computeFlux();
       updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
       computePower();
-      transportFlux();
 
       mVoltage = mPotentialVector[0];
       mCurrent = mFlux;
-- 
2.43.0


From e027ad1faba25e1dbdbbe4b1db2e1c1945529e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 19/36] fix: an overridden load switch transports no flux from
 its supply node

In the loads voltage override mode the switch is disconnected from Port 0, but its flux (the loads' current, or the flux
of the override source into Port 1) was still taken out of Port 0's node.
---
 .../Switch/GunnsElectUserLoadSwitch.cpp       | 22 +++++++++++++++++++
 .../Switch/GunnsElectUserLoadSwitch.hh        |  2 ++
 .../Switch/GunnsElectUserLoadSwitch2.cpp      | 22 +++++++++++++++++++
 .../Switch/GunnsElectUserLoadSwitch2.hh       |  2 ++
 4 files changed, 48 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index cd1e99f..3143699 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -439,3 +439,25 @@ void GunnsElectUserLoadSwitch::computePower()
         }
     }
 }
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fromPort (--) The port the flux is transported out of.
+/// @param[in] toPort   (--) The port the flux is transported into.
+///
+/// @details  When the loads voltage override mode is not active, flux is transported as in a normal
+///           conductor.  When the loads voltage override mode is active, Port 0 is disconnected from
+///           the loads and takes no part in the flux: it comes from the potential source from Ground
+///           to Port 1.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsElectUserLoadSwitch::transportFlux(const int fromPort, const int toPort)
+{
+    if (not mLoadsOverrideActive) {
+        GunnsBasicConductor::transportFlux(fromPort, toPort);
+    } else if (mNodeMap[toPort] != getGroundNodeIndex()) {
+        if (mFlux > 0.0) {
+            mNodes[toPort]->collectInflux(mFlux);
+        } else if (mFlux < 0.0) {
+            mNodes[toPort]->collectOutflux(-mFlux);
+        }
+    }
+}
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh
index 4fa20c0..9c00cab 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh
@@ -177,6 +177,8 @@ class GunnsElectUserLoadSwitch : public GunnsBasicConductor
         virtual void computeFlux();
         /// @brief Computes power for the aspect-specific implementation.
         virtual void computePower();
+        /// @brief Transports flux from the input to the output nodes.
+        virtual void transportFlux(const int fromPort = 0, const int toPort = 1);
 
     private:
         /// @details Define the number of ports this link class has.  All objects of the same link
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 7718a46..3f69262 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -477,3 +477,25 @@ void GunnsElectUserLoadSwitch2::computePower()
         mLoadsPower = -mPower - mFlux * mFlux * mSwitch.getResistance();
     }
 }
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] fromPort (--) The port the flux is transported out of.
+/// @param[in] toPort   (--) The port the flux is transported into.
+///
+/// @details  When the loads voltage override mode is not active, flux is transported as in a normal
+///           conductor.  When the loads voltage override mode is active, Port 0 is disconnected from
+///           the loads and takes no part in the flux: it comes from the potential source from Ground
+///           to Port 1.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsElectUserLoadSwitch2::transportFlux(const int fromPort, const int toPort)
+{
+    if (not mLoadsOverrideActive) {
+        GunnsBasicConductor::transportFlux(fromPort, toPort);
+    } else if (mNodeMap[toPort] != getGroundNodeIndex()) {
+        if (mFlux > 0.0) {
+            mNodes[toPort]->collectInflux(mFlux);
+        } else if (mFlux < 0.0) {
+            mNodes[toPort]->collectOutflux(-mFlux);
+        }
+    }
+}
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh
index 32884f8..baabfa8 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh
@@ -115,6 +115,8 @@ class GunnsElectUserLoadSwitch2 : public GunnsBasicConductor
         virtual void computeFlux();
         /// @brief Computes power for the aspect-specific implementation.
         virtual void computePower();
+        /// @brief Transports flux from the input to the output nodes.
+        virtual void transportFlux(const int fromPort = 0, const int toPort = 1);
 
     private:
         /// @details Define the number of ports this link class has.  All objects of the same link
-- 
2.43.0


From 46b1576b828b7d088dbf3ba7513297e4c8db2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 20/36] fix: a load switch leaving the loads override mode
 releases its output node

GunnsBasicConductor::buildConductance only watches the first admittance term, so a load switch that was open when the
loads voltage override mode ended kept the override source's conductance to Ground in its last term, shorting Port 1.
---
 aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp  | 6 ++++++
 aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index 3143699..10444dd 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -276,6 +276,12 @@ void GunnsElectUserLoadSwitch::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - When the override mode has ended, remove its potential source conductance.  The base class
+        ///   only watches for changes in the first term.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate    = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 3f69262..570ec12 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -311,6 +311,12 @@ void GunnsElectUserLoadSwitch2::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - When the override mode has ended, remove its potential source conductance.  The base class
+        ///   only watches for changes in the first term.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate    = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
-- 
2.43.0


From 8c5f50cee5f9249a15dd60e898eed29adcefbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 21/36] fix: an empty battery takes charge, and its empty cells
 share the charging current

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 031cb64..6dc2921 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -374,10 +374,12 @@ void GunnsElectBattery::updateFlux(const double timeStep, const double flux __at
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsElectBattery::updateCells(const double timeStep)
 {
-    /// - Count the number of cells contributing to the load.
+    /// - Count the number of cells contributing to the load.  When the battery is being charged,
+    ///   this includes the empty cells, since they can take charge.
     int count = 0;
     for (unsigned int i = 0; i < mNumCells; i++) {
-        if (mCells[i].getEffectiveSoc() > DBL_EPSILON) {
+        if (mCells[i].getEffectiveSoc() > DBL_EPSILON or
+                (mFlux < 0.0 and mCells[i].getEffectiveCapacity() > DBL_EPSILON)) {
             count++;
         }
     }
-- 
2.43.0


From 43df8eaab40f68cf69ac223458598cdfe2bc70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 22/36] fix: removing the battery thermal runaway malfunction
 as a new cell is due ends it in the cells

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 6dc2921..8fdb72a 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -258,7 +258,7 @@ void GunnsElectBattery::updateState(const double timeStep __attribute__((unused)
             mThermalRunawayCell++;
         }
     } else {
-        if (mThermalRunawayTimer > 0.0) {
+        if (mThermalRunawayTimer > 0.0 or mThermalRunawayCell > 0) {
             /// - On removal of this malfunction, shut off all the cell's malfunctions.  We only
             ///   do this on the first pass after the malf is removed, so as to not interfere with
             ///   individual cell's malf used at other times.
-- 
2.43.0


From 3a20a99267955fa8da088b2b7a46328b92d0b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 23/36] fix: a shorted battery cell loses its charge even if no
 other cell carries the load

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 8fdb72a..6ab138c 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -387,11 +387,9 @@ void GunnsElectBattery::updateCells(const double timeStep)
     /// - The link flux (current) is divided by the number of contributing cells and then passed to
     ///   all the cells to integrate.  Cells that are not contributing will ignore the current in
     ///   the cell model.
-    if (count > 0) {
-        const double current = mFlux / count;
-        for (unsigned int i = 0; i < mNumCells; i++) {
-            mCells[i].updateSoc(current, timeStep, mSocVocTable);
-        }
+    const double current = (count > 0) ? mFlux / count : 0.0;
+    for (unsigned int i = 0; i < mNumCells; i++) {
+        mCells[i].updateSoc(current, timeStep, mSocVocTable);
     }
 }
 
-- 
2.43.0


From fd1e88fbb0490d6c76402fc4437d515a72ce9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 24/36] fix: a battery restarted under load makes no heat until
 it conducts again

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 6ab138c..965a7c8 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -413,5 +413,8 @@ void GunnsElectBattery::updateOutputs()
     }
     mSoc      = soc;
     mCapacity = cap;
-    mHeat     = heat + mFlux * mFlux / std::max(mSystemConductance, DBL_EPSILON);
+    mHeat     = heat;
+    if (mSystemConductance > DBL_EPSILON) {
+        mHeat += mFlux * mFlux / mSystemConductance;
+    }
 }
-- 
2.43.0


From e55cbcb49d048279e44ba95bfe131d0caf0c300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 25/36] fix: a three-way check valve opens path B by that
 path's own opening pressure

---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..c3a28ab 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -304,7 +304,7 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From c1fc705406d4c4d21a2f13032eeb7442e2bdea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 26/36] fix: a multi-separator delivers each separated fluid to
 its own port

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..9f85f4e 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -683,11 +683,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
+    for (int fluid=0; fluid<mNumSepTypes; ++fluid) {
         mSepFluid[fluid].setTemperature(temperature);
         const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[fluid]]->collectInflux(mdot, &mSepFluid[fluid]);
         }
     }
 
-- 
2.43.0


From 6571172f25745b46c5862cfa653d9df912fbb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 27/36] fix: an adsorber that stops sorbing stops removing
 fluid from the network

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..1d10688 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -376,6 +376,8 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
     mSorbtionFluid->resetState();
     mSorbtionFlowRate = 0.0;
     mMass             = 0.0;
+    mSourceVector[0]  = 0.0;
+    mSourceVector[1]  = 0.0;
 
     /// - Skip sorbtion when the time step is negligible.
     if (dt > DBL_EPSILON) {
-- 
2.43.0


From c150c1b042a790b96270fd248f893a564f362ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 28/36] fix: an adsorber adsorbs trace compounds from a
 reversed flow too

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 1d10688..1876ece 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -440,7 +440,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From f6eb98066c864a93ad085def22fafaa78143c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 29/36] fix: a multi-separator passes on all trace compounds of
 the stream it does not separate

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 9f85f4e..b3c5d11 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -698,7 +698,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -738,7 +738,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Update trace compound mole fractions relative to the moles remaining in the
         ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             tc->updateMoleFractions();
         }
         mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
-- 
2.43.0


From a39e0c1364a5c0f7c017b585af7868981285bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 30/36] fix: a multi-separator of trace compounds alone leaves
 the rest of them in the stream

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index b3c5d11..27790ff 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -734,6 +734,8 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
                 mInternalFluid->setMoleAndMoleFractions(exitFlux, mWorkMoleFractions);
                 mInternalFluid->setTemperature(temperature);
             }
+        } else {
+            mInternalFluid->setMole(exitFlux);
         }
 
         /// - Update trace compound mole fractions relative to the moles remaining in the
-- 
2.43.0


From c8d34b0ec168907858dea04347f1330f54a5eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 31/36] fix: forced gas pressure in an accumulator leaves out
 the acceleration pressure head

---
 aspects/fluid/capacitor/GunnsFluidAccumGas.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
index c4ec03b..b5e43ff 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
@@ -260,9 +260,10 @@ bool GunnsFluidAccumGas::forceGasChamber(const double dt,
                                               mMaxPressure,
                                               0.0,
                                               mMaxForcePressureRate);
-    /// - Set new pressure within gas fluid, subtracting out the spring pressure.
+    /// - Set new pressure within gas fluid, subtracting out the spring pressure and
+    ///   pressure head.
     ///   The resultant pressure of the liquid chamber will be the desired value.
-    mGasInternalFluid->setPressure(resultPressure - mSpringPressure);
+    mGasInternalFluid->setPressure(resultPressure - mSpringPressure - mAccelPressureHead);
     /// - Update temperature if allowed. Otherwise, set to existing value.
     if (updateTemperature) {
         /// - Back calculate mass to match new pressure with old volume. Do this prior to updating temperature normally
-- 
2.43.0


From 9b03e8a8107865f5800e0c5b6f99a678caae9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:54 +0000
Subject: [PATCH 32/36] fix: gas flowing into an accumulator's gas chamber
 warms with its own heat capacity

---
 aspects/fluid/capacitor/GunnsFluidAccumGas.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
index b5e43ff..286188f 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
@@ -487,20 +487,29 @@ void GunnsFluidAccumGas::updateGasChamber(const double dt)
     }
 
     /// - Update temperature.
+    const double oldMass = mGasInternalFluid->getMass();
+    const double newMass = computeMass(dt, mGasFlowRate, oldMass);
+    const double oldHeat = oldMass * mGasInternalFluid->getSpecificEnthalpy();
     mGasInternalFluid->setTemperature(computeTemperature(dt,
                                                          mGasFlowRate,
                                                          mNodes[GAS_PORT]->getOutflow()->getSpecificEnthalpy(),
                                                          mGasInternalFluid,
                                                          mGasHousingQ));
-    /// - Update gas mass.
-    const double oldMass = mGasInternalFluid->getMass();
-    const double newMass = computeMass(dt, mGasFlowRate, oldMass);
+    /// - Update gas mass, and the temperature of the new mixture if the inflow has changed it.
     if (mGasFlowRate > DBL_EPSILON) {
         GunnsFluidUtils::mixFluidMasses(mGasInternalFluid,
                                         oldMass,
                                         mNodes[GAS_PORT]->getInflow(),
                                         dt * mGasFlowRate,
                                         mNodes[GAS_PORT]->getFluidConfig()->mNTypes);
+        if (!mHoldTemperatureFlag) {
+            const double inHeat = (mGasHousingQ + mGasFlowRate *
+                                   mNodes[GAS_PORT]->getOutflow()->getSpecificEnthalpy()) * dt;
+            const double temperature =
+                    mGasInternalFluid->computeTemperature((oldHeat + inHeat) / newMass);
+            mGasInternalFluid->setTemperature(
+                    MsMath::limitRange(mMinTemperature, temperature, mMaxTemperature));
+        }
     } else {
         mGasInternalFluid->setMass(newMass);
     }
-- 
2.43.0


From b2f6ca833106ded32f1dcc5c622dbd99496f7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:35 +0000
Subject: [PATCH 33/36] fix: GunnsFluidDistributedIf: the incoming flow takes
 the energy sent with it in the Supply role

---
 core/GunnsFluidDistributedIf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..61e657b 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,9 +456,9 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
     if (mWorkFluidState.mTcMoleFractions) {
-- 
2.43.0


From 5c08b145d4e0ee4e4f9f18a83da31ed40ab02d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:14 +0000
Subject: [PATCH 34/36] fix: GunnsElectConverterOutput: the power of a
 converged solution right after a rejected one is valid

---
 aspects/electrical/Converter/GunnsElectConverterOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
index 645483d..0efc202 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
@@ -524,6 +524,8 @@ GunnsBasicLink::SolutionResult GunnsElectConverterOutput::confirmSolutionAccepta
 
         /// - After the network as converged, compute currents, powers and check for trips.
         if ((convergedStep > 0) and (REJECT != result)) {
+            /// - The solution is converged, so the power from it is valid.
+            mInputPowerValid = true;
             computeInputPower(mInputPower);
 
             /// - Sensors are optional; if a sensor exists then the trip uses its sensed value of
-- 
2.43.0


From cafbf6d1e70bb3937076742262cf094c5768280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 35/36] fix: a copied PolyFluid gave each constituent the total
 flow rate and mass

---
 aspects/fluid/fluid/PolyFluid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 37ea386..b339a64 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -300,6 +300,8 @@ PolyFluid::PolyFluid(const PolyFluid& that, const std::string& name, const bool
                                             input);
         mConstituents[i].mMassFraction = that.mConstituents[i].mMassFraction;
         mConstituents[i].mMoleFraction = that.mConstituents[i].mMoleFraction;
+        mConstituents[i].mFluid.setFlowRate(mConstituents[i].mMassFraction * mFlowRate);
+        mConstituents[i].mFluid.setMass(mConstituents[i].mMassFraction * mMass);
     }
 
     /// - Copy the trace compounds if it exists.  This is a deep copy so the new fluid's trace
-- 
2.43.0


From 5ec6230f60e2d0269fcd03f759b3cd3c5cc7e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:19 +0000
Subject: [PATCH 36/36] fix: a gas whose partial pressure rate edit had ended
 kept its last portion in the tank while another gas's edit went on

---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index 900aa92..7696104 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -335,6 +335,9 @@ void GunnsFluidTank::updateState(const double dt)
     /// If there is a partial pressure rate edit in progress,
     for (int i = 0; i < mNConstituents; ++i) {
         editComplete[i]         = true;
+        /// Constituents that are not undergoing edits, or whose edit has just ended, should have no
+        /// portion of the internal fluid.
+        mInternalFluid->setMass(i, 0.0);
         if (mEditPartialPressureRateFlag[i]) {
 
             const double rate = std::fabs(mEditPartialPressureRateValue[i]);
@@ -375,10 +378,6 @@ void GunnsFluidTank::updateState(const double dt)
                 }
             }
 
-        } else {
-            /// Constituents that are not undergoing edits should have no portion of the internal
-            /// fluid.
-            mInternalFluid->setMass(i, 0.0);
         }
     }
 
-- 
2.43.0

