From 744614687ca48ff11f19fa78fad8a338773728c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 01/32] fix: receive while completing sends in the Capsaicin
 two-sided traversal

All processes waited for their sends before receiving anything, which
deadlocks as soon as messages are too large to be buffered.
---
 src/GraphTraverser.cc | 14 +++++++++-----
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..34a5b3e 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,9 +180,11 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    Data is received while waiting for the sends to complete since the sends
+    may need the receiving process, which could be sending as well.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers, vector<char> &dataPackets) const
 {
     vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
@@ -209,9 +211,11 @@ void GraphTraverser::sendData2Sided(
     
     
     // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
+    int sendsDone = (mpiSendRequests.size() == 0);
+    while (!sendsDone) {
+        recvData2Sided(dataPackets);
+        mpiError = MPI_Testall(mpiSendRequests.size(), mpiSendRequests.data(), 
+                               &sendsDone, MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
     }
 }
@@ -669,7 +673,7 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, dataPackets);
                 sendTimer.stop();
 
                 recvTimer.start();
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..7c42afe 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<char> &dataPackets) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From 613e112b9aac3f232c0863470dd505317b6e20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 02/32] fix: only read the probe status when a message was
 found

MPI_Iprobe leaves the status undefined when its flag is zero.
---
 src/GraphTraverser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 34a5b3e..602686f 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -242,12 +242,13 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
         // Probe for new message
         mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);
         Insist(mpiError == MPI_SUCCESS, "");
-        mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
-        Insist(mpiError == MPI_SUCCESS, "");
 
 
         // Recv message if there is one
         if (flag) {
+            mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
+            Insist(mpiError == MPI_SUCCESS, "");
+
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
-- 
2.43.0


From 7c5ee16b786dc2ecec59aa1b255a450ca05d4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 03/32] fix: keep buffers of nonblocking sends until they are
 complete

The header vector of each message was destroyed, and the data vectors
cleared, while their MPI_Isend could still be in progress.
---
 src/Sweeper.cc | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..28a42db 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -105,15 +105,29 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 }
 
 
+/*
+    SendBuffers
+
+    Owns the data of nonblocking sends until they are complete.
+    (Growing the outer vectors moves but does not reallocate the inner ones.)
+*/
+struct SendBuffers
+{
+    vector<vector<UINT>> uints;
+    vector<vector<double>> doubles;
+};
+
+
 /*
     send
     
     Send side data.
+    The buffers must be kept until the requests are complete.
 */
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          vector<MPI_Request> &mpiRequests, SendBuffers &buffers)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,24 +135,25 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
     
-            Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
+            buffers.uints.push_back({nSides, nData});
+            Comm::iSendUIntVector(buffers.uints.back(), proc, tag0, mpiRequest);
             mpiRequests.push_back(mpiRequest);
             if (nSides > 0) {
-                Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
+                buffers.uints.push_back(vector<UINT>());
+                buffers.uints.back().swap(commSidesAngles(angleGroup, proc));
+                Comm::iSendUIntVector(buffers.uints.back(), proc, 
                                      tag1, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
-                Comm::iSendDoubleVector(commPsi(angleGroup, proc), proc, 
+                buffers.doubles.push_back(vector<double>());
+                buffers.doubles.back().swap(commPsi(angleGroup, proc));
+                Comm::iSendDoubleVector(buffers.doubles.back(), proc, 
                                         tag2, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
             }
-            
-            commSidesAngles(angleGroup, proc).clear();
-            commPsi(angleGroup, proc).clear();
         }
     }
 }
@@ -421,9 +436,11 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             // Communication (Non blocking send followed by blocking recv)
             vector<MPI_Request> mpiRequests;
+            SendBuffers sendBuffers;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     sendBuffers);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -472,7 +489,9 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                SendBuffers sendBuffers;
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     sendBuffers);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
-- 
2.43.0


From a75732726aaa6f3ab6275dcee4446bc3564a5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 04/32] fix: do not block in sends while computing the sweep
 schedule

All processes sent before they received, so the schedule computation
deadlocked once messages were too large to be buffered.
---
 src/SweepSchedule.cc | 70 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..7efb47f 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -260,6 +260,39 @@ void updateLevels(const vector<SweepSchedule::Work> &workDone,
 }
 
 
+/*
+    SideSends
+    
+    Nonblocking sends of side data to neighboring processes.
+    All processes send before they receive, so the sends must not block.
+*/
+namespace {
+const int SIDE_TAG = 0;
+class SideSends
+{
+private:
+    vector<vector<UINT> > c_buffers;
+    vector<MPI_Request> c_requests;
+
+public:
+    void send(const vector<UINT> &buffer, UINT proc)
+    {
+        MPI_Request request;
+        c_buffers.push_back(buffer);
+        Comm::iSendUIntVector(c_buffers.back(), proc, SIDE_TAG, request);
+        c_requests.push_back(request);
+    }
+
+    void wait()
+    {
+        int result = MPI_Waitall(c_requests.size(), c_requests.data(), 
+                                 MPI_STATUSES_IGNORE);
+        Insist(result == MPI_SUCCESS, "SideSends::wait MPI error.\n");
+    }
+};
+}
+
+
 /*
     sendLevels
 */
@@ -268,7 +301,8 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                SideSends &sends)
 {
     vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
     
@@ -293,9 +327,9 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
     
     for(UINT proc : neighborProcs) {
         UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
+        sends.send(vector<UINT>(1, nSides), proc);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
+            sends.send(commSidesAnglesLevels[proc], proc);
         }
     }
 }
@@ -312,11 +346,12 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
                    const set<UINT> &neighborProcs)
 {
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> nSidesData(1);
+        Comm::recvUIntVector(nSidesData, proc, SIDE_TAG);
+        UINT nSides = nSidesData[0];
         if (nSides > 0) {
             vector<UINT> commSidesAnglesLevels(3*nSides);
-            Comm::recvUIntVector(commSidesAnglesLevels, proc);
+            Comm::recvUIntVector(commSidesAnglesLevels, proc, SIDE_TAG);
 
             for (UINT child = 0; child < nSides; ++child) {
                 const UINT globalSide = commSidesAnglesLevels[child * 3];
@@ -346,7 +381,8 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                SideSends &sends)
 {
     vector<vector<UINT> > commSidesAngles(Comm::numRanks());
     
@@ -370,9 +406,9 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
         UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
+        sends.send(vector<UINT>(1, nSides), proc);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+            sends.send(commSidesAngles[proc], proc);
             stepSendProcs.push_back(proc);
         }
     }
@@ -393,11 +429,12 @@ void recvOrders(priority_queue<PriorityWork> &availableWork,
     vector<UINT> stepRecvProcs;
     
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> nSidesData(1);
+        Comm::recvUIntVector(nSidesData, proc, SIDE_TAG);
+        UINT nSides = nSidesData[0];
         if (nSides > 0) {
             vector<UINT> commSidesAngles(2*nSides);
-            Comm::recvUIntVector(commSidesAngles, proc);
+            Comm::recvUIntVector(commSidesAngles, proc, SIDE_TAG);
             stepRecvProcs.push_back(proc);
             
             for (UINT parent = 0; parent < nSides; ++parent) {
@@ -446,9 +483,11 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        SideSends sends;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, sends);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        sends.wait();
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +532,12 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        SideSends sends;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   sends);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        sends.wait();
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From f485c27549902a3265702e72d61f0da589c587af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 05/32] fix: use the computed vertex order of faces

The order that makes the two sides of a face agree was computed but had no
effect: face vertices were numbered as stored in each partition.
---
 src/TychoMeshIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..2812ec2 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -288,8 +288,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
             if(partData.faceData[face].boundingNodes[order[fvrtx]] == 
                partData.cellData[cell].boundingNodes[cvrtx])
             {
-                c_faceToCellVrtx(cell, lface, order[fvrtx]) = cvrtx;
-                c_cellToFaceVrtx(cell, lface, cvrtx) = order[fvrtx];
+                c_faceToCellVrtx(cell, lface, fvrtx) = cvrtx;
+                c_cellToFaceVrtx(cell, lface, cvrtx) = fvrtx;
             }
         }}
     }}
-- 
2.43.0


From 384b3fdef30dcc9841e4e8cfecb62ba9f0965f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/32] fix: pair up the sides of neighboring partitions when
 reading the mesh

The adjacent cell and face of a side were taken from whichever side came
next on the other process, and sent from variables that went out of scope.
---
 src/TychoMeshIO.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 2812ec2..3c3ccdd 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,10 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // Each message is (global side, cell, face) since the two processes do not
+    // go through their common sides in the same order.
     vector<MPI_Request> mpiRequests;
+    vector<UINT> sendData(3 * c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,10 +307,11 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT *sideData = &sendData[3 * c_side(cell, face)];
+            sideData[0] = c_lGSides(c_side(cell, face));
+            sideData[1] = cell;
+            sideData[2] = face;
+            MPI_Isend(sideData, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                       MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
@@ -321,15 +325,16 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT sideData[3];
+            MPI_Recv(sideData, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            side = getGLSide(sideData[0]);
+            c_adjCellFromSide(side) = sideData[1];
+            c_adjFaceFromSide(side) = sideData[2];
         }
     }}
     
-    MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+    MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
 }
 
 
-- 
2.43.0


From c7216609bbf6f922d652ec211baacb72b9659c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/32] fix: treat faces parallel to a direction as neither
 incoming nor outgoing

A face with a zero normal component counted as incoming for the cells on
both sides.  The graph traversal then waited forever for flux that is never
sent, and the side exchange for data that never comes.
---
 src/CommSides.cc      | 2 +-
 src/GraphTraverser.cc | 3 ++-
 src/TychoMesh.hh      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 602686f..9997edd 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -602,7 +602,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..4157008 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From cf641a07bacd209d4b8307c67892b2c37638e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 08/32] fix: return the adjacent face from getAdjFace

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 4157008..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 583ffb2656fb1a98cb5480b2c0c270945a9133ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 09/32] fix: do not take the address of the first element of an
 empty vector

---
 src/Sweeper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 28a42db..57519a2 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -447,7 +447,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 recv(step, angleGroup, psiBound);
             }
             
-            MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+            MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
             //Comm::barrier();
         }
     }
@@ -493,7 +493,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
                      sendBuffers);
                 recv(step, angleGroup, psiBound);
-                MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
+                MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
                             MPI_STATUSES_IGNORE);
                 
                 
-- 
2.43.0


From 9c542f52b74263562b45e1321bb89b61da6354ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 10/32] fix: refine meshes of less than 1000 cells

The progress output divided by zero.
---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From c73ecb272b2a98d8bad0604cb7ce230714cae057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 11/32] fix: define the source at the center of the hat

A node at the center gave 0/0, and the solution became NaN.
---
 src/Problem.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..ac16367 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -69,7 +69,12 @@ void hatSource(PsiData &source)
         double c = sqrt(x*x + y*y + z*z);
         
         for(UINT group = 0; group < g_nGroups; group++) {
-            if(c <= 30.0) {
+            if(c == 0.0) {
+                // The gradient is undefined here, use its average.
+                source(group, vrtx, angle, cell) = 
+                    g_sigmaT[cell] - g_sigmaS[cell];
+            }
+            else if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
                     - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
-- 
2.43.0


From ff83a2d08e2d11bd0b6ad84ebe14a655861ab789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 12/32] fix: normalize the difference between groups by the
 global maximum

Each process divided by its own maximum, so the result depended on the
partitioning and was NaN when a process had zero flux.
---
 src/Util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..184006b 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -73,9 +73,9 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
     Comm::gmax(maxDiff);
-    return maxDiff;
+    Comm::gmax(maxEntry);
+    return maxDiff / maxEntry;
 }
 
 
-- 
2.43.0


From 50496c25610a01bb49533faf9297073670e65222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 13/32] fix: print the line number of deck errors

The number was appended as a character code.
---
 src/KeyValueReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..a492f30 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
-- 
2.43.0


From 7aa39f049c088050bc9708c06411254812394aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 14/32] fix: refuse numbers followed by other characters

The rest of a value such as 1e-3x or 8.5 (for an integer) was ignored.
---
 src/KeyValueReader.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index a492f30..55ddba4 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -409,10 +409,16 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     getString(key, valueString);
     
     // Convert to int
+    // The whole string must be used for the conversion.
+    size_t numChars = 0;
     try {
-        value = stoi(valueString);
+        value = stoi(valueString, &numChars);
     }
     catch (...) {
+        numChars = 0;
+    }
+    if (numChars == 0 || numChars != valueString.size()) {
+        value = 0;
         c_data->printMessage("Error converting value to int");
         throw ExceptionStringConversionError;
     }
@@ -437,10 +443,16 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     getString(key, valueString);
     
     // Convert to double
+    // The whole string must be used for the conversion.
+    size_t numChars = 0;
     try {
-        value = stod(valueString);
+        value = stod(valueString, &numChars);
     }
     catch (...) {
+        numChars = 0;
+    }
+    if (numChars == 0 || numChars != valueString.size()) {
+        value = 0.0;
         c_data->printMessage("Error converting value to double");
         throw ExceptionStringConversionError;
     }
-- 
2.43.0


From 73ee988e5bbe6370b93afc405d3a272a131b8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 15/32] fix: refuse unrecognized Gaussian elimination methods

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..733e893 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,7 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
-
+    else
+        Insist(false, "Gaussian elimination method not recognized.");
 }
 
 
-- 
2.43.0


From 91ff8e23d5907a28ea04916474718639eac544a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 16/32] fix: give cells without descendants on other processes
 zero priority

Subtracting one from the zero priority of a child wrapped around and made
its parents the most urgent cells instead of the least urgent ones.
---
 src/Priorities.cc    | 6 +++++-
 src/SweepSchedule.cc | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 084fc97..397ce4b 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -245,7 +245,11 @@ public:
             
             else if (bdryType[face] == BoundaryType_OutInt) {
                 UINT adjCell = adjCellsSides[face];
-                priority = c_priorities(adjCell, angle) + c_parentShift;
+                priority = c_priorities(adjCell, angle);
+                
+                // Zero means no descendants on another process.
+                if (priority > 0)
+                    priority += c_parentShift;
             }
             
             c_priorities(cell, angle) = max(c_priorities(cell, angle), priority);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 7efb47f..0edd1fa 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -596,9 +596,13 @@ void updatePriorities(Mat2<UINT> &priorities,
             if (hasParent(angle, cell, face) &&
                 adjCell != TychoMesh::BOUNDARY_FACE) // on processor
             {
+                // Zero means no descendants on another process.
+                UINT priority = priorities(angle, cell);
+                if (priority > 0)
+                    priority += parentShift;
+                
                 priorities(angle, adjCell) =
-                    max(priorities(angle, adjCell),
-                        priorities(angle, cell) + parentShift);
+                    max(priorities(angle, adjCell), priority);
             }
         }
     }
-- 
2.43.0


From 3b643fcd8ad4c773f95936ed9c7a325c2d5dd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 17/32] fix: refuse mesh files with missing data

---
 src/Comm.cc | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..51235ac 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -363,6 +363,22 @@ void seek(const MPI_File &file, uint64_t position)
 }
 
 
+/*
+    checkCount
+
+    Checks that a read got all of its data.  (Reading past the end of a file is
+    not an error for MPI.)
+*/
+static
+void checkCount(MPI_Status &status, size_t numBytes)
+{
+    int count = 0;
+    int result = MPI_Get_count(&status, MPI_BYTE, &count);
+    Insist(result == MPI_SUCCESS && count >= 0 && (size_t)count == numBytes,
+           "File has missing data.\n");
+}
+
+
 /*
     readUint64
     
@@ -370,9 +386,11 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    checkCount(status, sizeof(uint64_t));
 }
 
 
@@ -383,9 +401,11 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    checkCount(status, sizeof(uint64_t) * numData);
 }
 
 
@@ -396,9 +416,11 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    checkCount(status, sizeof(char) * numData);
 }
 
 
-- 
2.43.0


From 6c3c957584592e25d284763559e2cd0119175c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 18/32] fix: perform the requested number of block Jacobi
 iterations

The block Jacobi solvers stopped one iteration before DD_IterMax (with a limit
of one they did not sweep at all) but reported DD_IterMax iterations.
---
 src/SweeperPBJ.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/SweeperPBJ.cc b/src/SweeperPBJ.cc
index 0581871..fb76e1c 100644
--- a/src/SweeperPBJ.cc
+++ b/src/SweeperPBJ.cc
@@ -70,9 +70,13 @@ void SweeperPBJOuter::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+
+
         // Sweep
         UINT its;
         if (g_useSourceIteration)
@@ -105,10 +109,6 @@ void SweeperPBJOuter::solve()
         
         // Communicate
         c_commSides.commSides(c_psi, c_psiBound);
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
@@ -178,9 +178,13 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     
     
     // Sweep till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+
+
         // Sweep
         Util::sweepLocal(psi, source, c_psiBoundPrev);
         c_iters++;
@@ -205,10 +209,6 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
         
         // Communicate
         c_commSides.commSides(psi, c_psiBoundPrev);
-        
-        
-        // Increment iter
-        iter++;
     }
 
 
@@ -243,9 +243,13 @@ void SweeperPBJSI::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+
+
         Util::calcTotalSource(c_source, phi0, totalSource);
         sweep(c_psi, totalSource, false);
         Util::psiToPhi(phi1, c_psi);
@@ -270,10 +274,6 @@ void SweeperPBJSI::solve()
 
         if (errL1 / normL1 < g_ddErrMax)
             break;
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
-- 
2.43.0


From 06bfc39a96d5cad383c2e42f394e7ca61b95fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 19/32] fix: refuse unrecognized priority options

---
 src/Main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 733e893..3e9c14b 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -130,6 +130,12 @@ void readInput(const string &inputFileName,
     g_ddIterMax = ddIterMax;
     
     
+    Insist(intraAngleP >= 0 && intraAngleP <= 4, 
+           "Intra-angle priority not recognized.");
+    Insist(interAngleP >= 0 && interAngleP <= 2, 
+           "Inter-angle priority not recognized.");
+    
+    
     string mpiType;
     kvr.getString("MPIType", mpiType);
     if (mpiType == "TychoTwoSided")
-- 
2.43.0


From 1a336407784d7e284be7526261f772e6e72d3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 20/32] fix: compute sweep schedules for processes without
 cells

---
 src/SweepSchedule.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 0edd1fa..656f434 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -540,8 +540,8 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         sends.wait();
     }
     
-    UINT nlevels = cellLevels[0];
-    for(unsigned i = 1; i < cellLevels.size(); i++) {
+    UINT nlevels = 0;
+    for(unsigned i = 0; i < cellLevels.size(); i++) {
         nlevels = std::max(nlevels, cellLevels[i]);
     }
     Comm::gmax(nlevels);
-- 
2.43.0


From bb754437679c5667f95b54d4615a518fa416f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 21/32] fix: communicate b-levels between partitions when
 calculating priorities

---
 src/Priorities.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 397ce4b..beef8b4 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -399,7 +399,9 @@ namespace Priorities
 */
 void calcPriorities(Mat2<UINT> &priorities)
 {
+    // B-levels depend on the b-levels of neighboring partitions
     const bool doComm = false;
+    GraphTraverser bLevelTraverser(Direction_Backward, true, sizeof(UINT));
     GraphTraverser graphTraverser(Direction_Backward, doComm, sizeof(UINT));
     
     UINT numAngles = g_nAngles;
@@ -407,7 +409,7 @@ void calcPriorities(Mat2<UINT> &priorities)
     Mat2<UINT> sideBLevels(g_tychoMesh->getNSides(), numAngles);
     
     UINT maxBLevel = calcBLevels(bLevels, sideBLevels, 
-                                 &graphTraverser);
+                                 &bLevelTraverser);
     
     
     // Calculate intra-angle priorities
-- 
2.43.0


From 23246e308eaa0a43bc8bd2bb1cd7093a419a9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 22/32] fix: refuse float values followed by other characters

---
 src/KeyValueReader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 55ddba4..9947432 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -477,10 +477,16 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     getString(key, valueString);
     
     // Convert value to float
+    // The whole string must be used for the conversion.
+    size_t numChars = 0;
     try {
-        value = stof(valueString);
+        value = stof(valueString, &numChars);
     }
     catch (...) {
+        numChars = 0;
+    }
+    if (numChars == 0 || numChars != valueString.size()) {
+        value = 0.0f;
         c_data->printMessage("Error converting value to float");
         throw ExceptionStringConversionError;
     }
-- 
2.43.0


From 40398c722ab33e2e30bac8afc4f5af33a0cd161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 23/32] fix: solve with Krylov methods whatever the residual of
 the initial guess

---
 src/KrylovSolver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/KrylovSolver.cc b/src/KrylovSolver.cc
index ff17f23..f13ff05 100644
--- a/src/KrylovSolver.cc
+++ b/src/KrylovSolver.cc
@@ -95,9 +95,11 @@ KrylovSolver::KrylovSolver(UINT localVecSize, double rtol, UINT iterMax,
     
 
     // Create ksp and set tolerances
+    // (No divergence tolerance since the initial guess could have a residual 
+    //  much larger than the right hand side.)
     KSPCreate(MPI_COMM_WORLD, &c_ksp);
     KSPSetOperators(c_ksp, c_mat, c_mat);
-    KSPSetTolerances(c_ksp, rtol, PETSC_DEFAULT, PETSC_DEFAULT, iterMax);
+    KSPSetTolerances(c_ksp, rtol, PETSC_DEFAULT, PETSC_MAX_REAL, iterMax);
     KSPSetType(c_ksp, KSPGMRES);
 
 
-- 
2.43.0


From fede809079b5fde3092e0c8a7f44c2d1b01eff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 24/32] fix: fail when output files cannot be written
 completely

Writing to a full device was reported as success: the result of fclose, where
buffered data is written, and the amount written by MPI-IO were not checked.
---
 src/Comm.cc         | 9 ++++++++-
 src/ParallelMesh.cc | 5 ++++-
 src/SerialMesh.cc   | 5 ++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 51235ac..7bf84b7 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -432,9 +432,16 @@ void readChars(const MPI_File &file, char *data, int numData)
 void writeDoublesAt(const MPI_File &file, UINT offset, double *data, 
                     UINT numData)
 {
+    MPI_Status status;
+    int count = 0;
     int result = MPI_File_write_at(file, offset * 8, data, numData, MPI_DOUBLE, 
-                                   MPI_STATUS_IGNORE);
+                                   &status);
     Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error.\n");
+
+    // Writing less data (e.g. because the disk is full) is not an error for MPI
+    result = MPI_Get_count(&status, MPI_DOUBLE, &count);
+    Insist(result == MPI_SUCCESS && count >= 0 && (UINT)count == numData,
+           "Comm::writeDoublesAt could not write all data.\n");
 }
 
 
diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index aac98f2..11ea51b 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -163,6 +163,7 @@ void ParallelMesh::write(const std::string &filename)
 {
     FILE *file;
     size_t numWritten;
+    int closed;
     vector<uint64_t> bufferUint;
     
     
@@ -260,7 +261,9 @@ void ParallelMesh::write(const std::string &filename)
     
     
     // Close file
-    fclose(file);
+    // (buffered data is written here, so this may fail too)
+    closed = fclose(file);
+    assert(closed == 0);
 }
 
 
diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index aa5ad9a..fe34ec0 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -121,6 +121,7 @@ void SerialMesh::write(const std::string &filename)
 {
     FILE *file;
     size_t numWritten;
+    int closed;
     vector<uint64_t> bufferUint;
     vector<double> bufferDouble;
     
@@ -197,7 +198,9 @@ void SerialMesh::write(const std::string &filename)
 
     
     // Close file
-    fclose(file);
+    // (buffered data is written here, so this may fail too)
+    closed = fclose(file);
+    assert(closed == 0);
 }
 
 
-- 
2.43.0


From 48d6f5101f14d24dfa4ca310e8dc55842179931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 25/32] fix: ask MPI for the thread support that the sweeps
 need

Threads exist and, in OriginalTycho2 sweeps, call MPI one after another, which
MPI_THREAD_SINGLE does not allow.
---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 3e9c14b..40f4373 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -201,7 +201,8 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // (Threads of OriginalTycho2 sweeps communicate, one at a time)
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From 22904e1e57d5f8d54dbe171841816d971f04c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 26/32] fix: don't use fluxes of a previous sweep across faces
 parallel to an angle

The sweep schedule ignores faces parallel to an angle, but rounding leaves them
a tiny coupling to the neighbor, whose flux could be of the previous sweep. In
Krylov solves that flux may be many orders of magnitude larger than the vector
the operator is applied to, which spoiled results for strong sources.
---
 src/Sweeper.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 57519a2..002b128 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -395,6 +395,12 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     totalTimer.start();
     
     
+    // A neighbor across a face parallel to the angle is no dependency and could 
+    // be used before it is swept.  Don't use its values of a previous sweep, 
+    // which may be many orders of magnitude larger.
+    psi.setToValue(0.0);
+    
+    
     // Get max steps for all OpenMP threads
     UINT maxNSteps = g_sweepSchedule[0]->nSteps();
     for(UINT angleGroup = 1; angleGroup < g_nAngleGroups; angleGroup++) {
-- 
2.43.0


From c2912197985ba74434ce19af7a21d2c8044a50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 27/32] fix: use the boundary flux of the previous sweep as
 Schur initial guess only in source iteration

With a Krylov method for the source, the previous sweep was for an unrelated
vector of another magnitude. As an initial guess it cost all digits when the
source was weak (1e-15).
---
 src/SweeperSchur.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/SweeperSchur.cc b/src/SweeperSchur.cc
index e577411..63b90eb 100644
--- a/src/SweeperSchur.cc
+++ b/src/SweeperSchur.cc
@@ -269,10 +269,14 @@ void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     
     
     // Initial guess
-    x = c_krylovSolver->getX();
-    psiBoundToVec(x, c_psiBoundPrev);
-    c_krylovSolver->releaseX();
-    c_krylovSolver->setInitialGuessNonzero();
+    // (Within a Krylov method for the source, the previous sweep was for an 
+    //  unrelated vector, which may be many orders of magnitude larger.)
+    if (g_useSourceIteration) {
+        x = c_krylovSolver->getX();
+        psiBoundToVec(x, c_psiBoundPrev);
+        c_krylovSolver->releaseX();
+        c_krylovSolver->setInitialGuessNonzero();
+    }
     
     
     // Set RHS
-- 
2.43.0


From a5363d7b0d9077be3770d2ca5a18c60821594316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 28/32] fix: count boundary faces that list the missing cell
 first as exterior faces

RefineSerialMesh printed such faces (CreateRegularMesh makes them) as interior.
---
 util/RefineSerialMesh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index c0d650e..5d49239 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -501,7 +501,8 @@ void printMeshData(const SerialMesh &mesh)
     uint64_t extFace = 0;
     uint64_t intFace = 0;
     for (uint64_t face = 0; face < mesh.c_numFaces; face++) {
-        if (mesh.c_faceData[face].boundingCells[1] == numeric_limits<uint64_t>::max())
+        if (mesh.c_faceData[face].boundingCells[0] == numeric_limits<uint64_t>::max() ||
+            mesh.c_faceData[face].boundingCells[1] == numeric_limits<uint64_t>::max())
             extFace++;
         else
             intFace++;
-- 
2.43.0


From b9096ee7537b6e7c46bf75096bdbeac518600ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 29/32] fix: keep the number of threads of all parallel regions
 equal (OMP_DYNAMIC)

Angles are divided among the threads that the first parallel region has.  With
OMP_DYNAMIC=true later regions could have fewer threads (angle groups were
never swept or the traversal hung) or more (out of bounds access).
---
 src/Main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 40f4373..9ea511a 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -238,6 +238,9 @@ int main(int argc, char *argv[])
     
     // Get number of angle groups
     // This is the same as the number of OpenMP threads
+    // (Angles are divided among the threads, so every parallel region needs 
+    //  this number of threads.  With OMP_DYNAMIC it could change with the load.)
+    omp_set_dynamic(0);
     g_nAngleGroups = 1;
     #pragma omp parallel
     {
-- 
2.43.0


From 33d3d33e7ee489990cf73cd6b2958c5e84670c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 30/32] fix: refuse maxCellsPerStep 0, for which sweeps never
 end

---
 src/Main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 9ea511a..e8245a1 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -130,6 +130,8 @@ void readInput(const string &inputFileName,
     g_ddIterMax = ddIterMax;
     
     
+    // A sweep would never end if nothing may be computed in a step
+    Insist(maxCellsPerStep != 0, "maxCellsPerStep must not be zero.");
     Insist(intraAngleP >= 0 && intraAngleP <= 4, 
            "Intra-angle priority not recognized.");
     Insist(interAngleP >= 0 && interAngleP <= 2, 
-- 
2.43.0


From 999164a5bc78dd25060205f350c8d2a1c42d5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 31/32] fix: use the same number of angle groups on all
 processes in original Tycho sweeps

With different numbers of threads (nodes with different numbers of cores, or
different settings) the sweep schedules did not match.
---
 src/Main.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index e8245a1..910caf3 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -249,6 +249,18 @@ int main(int argc, char *argv[])
         if(omp_get_thread_num() == 0)
             g_nAngleGroups = omp_get_num_threads();
     }
+    
+    
+    // The original Tycho sweeps communicate by angle group, so all processes
+    // need the same number.  Use the smallest number of threads.
+    if (g_sweepType == SweepType_OriginalTycho1 || 
+        g_sweepType == SweepType_OriginalTycho2)
+    {
+        UINT notNumThreads = ~g_nAngleGroups;
+        Comm::gmax(notNumThreads);
+        g_nAngleGroups = ~notNumThreads;
+        omp_set_num_threads(g_nAngleGroups);
+    }
     g_nThreads = g_nAngleGroups;
     if (Comm::rank() == 0)
         printf("Num angle groups: %" PRIu64 "\n", g_nAngleGroups);
-- 
2.43.0


From 99d90f89273e5b0507545b2f42cbed9bee2823b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 32/32] fix: count all local sweeps of the Schur sweeper

'Num local sweeps' was computed from the number of Krylov iterations and
missed the sweeps for residuals (nonzero initial guess, restarts).
---
 src/SweeperSchur.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SweeperSchur.cc b/src/SweeperSchur.cc
index 63b90eb..4616a2b 100644
--- a/src/SweeperSchur.cc
+++ b/src/SweeperSchur.cc
@@ -63,6 +63,9 @@ struct SchurData
     PsiBoundData *psiBound;
     PsiData *source;
     
+    // Only needed for Schur
+    UINT *numSweeps;
+
     // Only needed for SchurKrylov
     PhiData *phi;
 
@@ -198,6 +201,7 @@ void Schur(const double *x, double *b, void *voidData)
     // Perform W L_I^{-1} L_B
     Util::sweepLocal(*data->psi, *data->source, *data->psiBound);
     data->commSides->commSides(*data->psi, *data->psiBound);
+    ++(*data->numSweeps);
 
     
     // psiBound -> b
@@ -265,6 +269,7 @@ void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     data.psiBound = &psiBound;
     data.source = &zeroSource;
     data.psiBoundSize = getPsiBoundSize();
+    data.numSweeps = &c_iters;
     c_krylovSolver->setData(&data);
     
     
@@ -319,8 +324,8 @@ void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     }
 
     
-    // Increment number of sweep calls
-    c_iters += 2 + its;
+    // Increment number of sweep calls (the others are counted in Schur)
+    c_iters += 2;
 }
 
 
-- 
2.43.0

