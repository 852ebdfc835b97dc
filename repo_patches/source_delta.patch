From 0416e8bd3d808663c0d2193d4a0b580ac771dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 01/39] fix: no data race between parallel evaluation threads
 on the job queue and the main environment

The slave threads read jobsToProcess.empty() without holding the mutex, and
cloned the main learning environment while the main thread was already
using it for its own evaluations.
---
 .../include/learn/parallelLearningAgent.h     |  7 ++--
 .../src/learn/parallelLearningAgent.cpp       | 39 +++++++++----------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..8f02501 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment the LearningEnvironment used
+         * exclusively by the calling thread.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..5cde6bb 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <thread>
@@ -92,31 +93,25 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
 
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess = true;
+    while (doProcess) {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +120,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -137,7 +131,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -155,11 +149,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     }
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -246,6 +235,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each slave thread. This must be done
+    // before any thread starts using the main environment.
+    std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        privateEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -253,14 +249,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*privateEnvironments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 37d100781498a920d49e3f7e4fe51fb4e57e40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 02/39] fix: atomic count of DataHandlers, which are built
 concurrently by evaluation threads

---
 gegelatilib/include/data/dataHandler.h | 6 +++++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..45fe704 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -56,8 +57,11 @@ namespace Data {
       protected:
         /**
          * \brief Static count used to initialize the id of each DataHandler.
+         *
+         * It is atomic since DataHandler are built concurrently by the threads
+         * of the parallel agents.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From 9544e7ccf17cbf87b9b7a87819b72b3538178c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 03/39] fix: no data race on the address space caches of
 DataHandlers shared between threads

The caches were filled by const methods while several threads mutate
programs using the same environment and archived data handlers.
---
 gegelatilib/include/data/array2DWrapper.h | 43 ++++++++++-------------
 gegelatilib/include/data/arrayWrapper.h   | 31 +++++++---------
 2 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..36b817e 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -66,25 +66,6 @@ namespace Data {
      */
     template <class T> class Array2DWrapper : public ArrayWrapper<T>
     {
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         *
-         * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
-         */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
-
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,9 +198,21 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        // Caching mechanism for storing the addressSpace of different types (for
+        // a height and a width), with all type dimensions. The purpose of this
+        // cache is to accelerate the numerous accesses to the addressSpace for
+        // different data types. There is one cache per thread, because
+        // DataHandlers are shared by threads.
+        static thread_local std::map<
+            std::tuple<std::type_index, size_t, size_t>,
+            std::tuple<size_t, size_t, size_t>>
+            cachedAddressSpace;
+
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        const std::tuple<std::type_index, size_t, size_t> key(
+            type, this->height, this->width);
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
                 *dim1 = std::get<1>(iter->second);
             }
@@ -232,8 +225,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(
+                key, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
@@ -272,8 +265,8 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
+                    cachedAddressSpace.emplace(
+                        key, std::make_tuple(result, typeH, typeW));
                 }
             }
         }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..c7aa9f2 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -72,21 +72,6 @@ namespace Data {
                       "Template class PrimitiveTypeArray<T> can only be used "
                       "for primitive types.");
 
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
-
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,14 +258,22 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
+        // Caching mechanism for storing the addressSpace of different types (for
+        // a number of elements). The purpose of this cache is to accelerate the
+        // numerous accesses to the addressSpace for different data types. There
+        // is one cache per thread, because DataHandlers are shared by threads.
+        static thread_local std::map<std::pair<std::type_index, size_t>, size_t>
+            cachedAddressSpace;
+
         // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        const std::pair<std::type_index, size_t> key(type, this->nbElements);
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             return iter->second;
         }
 
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
+            cachedAddressSpace.emplace(key, this->nbElements);
             return this->nbElements;
         }
 
@@ -295,7 +288,7 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                cachedAddressSpace.emplace(key, result);
                 return result;
             }
         }
-- 
2.43.0


From e1aeee9b70f6dc5268d36a49633f0b535b9bebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 04/39] fix: TPGGraph::setEdgeSource leaves the graph unchanged
 when the new source is an action

---
 gegelatilib/src/tpg/tpgGraph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..b934cdc 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -292,6 +292,13 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
+
+        // Check the new source before modifying anything: an action accepts no
+        // outgoing edge.
+        if (dynamic_cast<const TPG::TPGAction*>(*iterNewSrc) != nullptr) {
+            throw std::runtime_error(
+                "Cannot add an outgoing edge to an Action vertex.");
+        }
         (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
         // Register the edge to the new source
         (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
-- 
2.43.0


From 2849761161c3b0ebbe24b6ee4130930bf98a548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 05/39] fix: a TPGGraph built or assigned by move keeps the
 factory of its vertices and edges

---
 gegelatilib/include/tpg/tpgGraph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..a8ce053 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -88,6 +88,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +307,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::unique_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From a1dae9226faecb059f384ce034376b239cd8d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 06/39] fix: programs reading different constants in an array
 operand do not have an identical behavior

Program::hasIdenticalBehavior only compared the first constant of an operand
accessing an array of constants, scaled as if it were a single constant.
---
 gegelatilib/src/program/program.cpp | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..f8c7f59 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -262,17 +262,25 @@ bool Program::Program::hasIdenticalBehavior(const Program& other) const
                      operandIdx < instruction.getNbOperands(); operandIdx++) {
                     // Is the operand from the Constant data source.
                     if (thisLine.getOperand(operandIdx).first == 1) {
-                        // Check equality of constants
-                        Data::Constant thisCste =
-                            this->getConstantAt(this->constants.scaleLocation(
-                                thisLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        Data::Constant otherCste =
-                            other.getConstantAt(other.constants.scaleLocation(
-                                otherLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        if (thisCste != otherCste) {
-                            return false;
+                        // Check equality of all the constants accessed by the
+                        // operand, which may be an array of Constant.
+                        const std::type_info& operandType =
+                            instruction.getOperandTypes().at(operandIdx);
+                        const std::type_info& accessedType =
+                            this->constants.canHandle(operandType)
+                                ? operandType
+                                : typeid(Data::Constant);
+                        const std::vector<size_t> accessedAddresses =
+                            this->constants.getAddressesAccessed(
+                                accessedType,
+                                this->constants.scaleLocation(
+                                    thisLine.getOperand(operandIdx).second,
+                                    accessedType));
+                        for (size_t address : accessedAddresses) {
+                            if (this->getConstantAt(address) !=
+                                other.getConstantAt(address)) {
+                                return false;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 110d0ef903c826b8a009c57ac7d6709e8fcce832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 07/39] fix: assigning a PrimitiveTypeArray or
 PrimitiveTypeArray2D invalidates its cached hash

The hash computed before the assignment was still returned afterwards, hence
the new content was archived under the hash of the old one.
---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..ef697e5 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..b9a09b5 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From 7421aea09355755d5747db294778d050cac90043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 08/39] fix: arrays of bytes with different contents no longer
 share their hash

The hashes of the elements of small types only differ by a few bits, which the
rotation by one bit was not enough to keep apart: 2% of the arrays of five
values in [0,15] had the hash of another array, and were therefore confused in
the Archive.
---
 gegelatilib/include/data/arrayWrapper.h   | 2 ++
 gegelatilib/include/data/pointerWrapper.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index c7aa9f2..1f19fac 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -415,6 +415,8 @@ namespace Data {
             this->cachedHash =
                 (this->cachedHash >> 1) | (this->cachedHash << 63);
             this->cachedHash ^= hasher((T)dataElement);
+            // Spread the bits, as the hashes of small types are close.
+            this->cachedHash *= _FNV_prime;
         }
 
         // Validate the cached hash value
diff --git a/gegelatilib/include/data/pointerWrapper.h b/gegelatilib/include/data/pointerWrapper.h
index 0fbf6aa..a4c931a 100644
--- a/gegelatilib/include/data/pointerWrapper.h
+++ b/gegelatilib/include/data/pointerWrapper.h
@@ -159,6 +159,8 @@ namespace Data {
                 (this->cachedHash >> 1) | (this->cachedHash << 63);
 
             this->cachedHash ^= Data::Hash<T>()(*this->containerPtr);
+            // Same operations as in ArrayWrapper, to which it may be cloned.
+            this->cachedHash *= _FNV_prime;
             return this->cachedHash;
         }
         else {
-- 
2.43.0


From bf69b26385c32b673b31d11cb6d704ce2deab755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 09/39] fix: equal infinite results are identical in
 Archive::areProgramResultsUnique

Their difference is NaN, so a program with the infinite bids of an archived
one was declared to have a unique behaviour.
---
 gegelatilib/src/archive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..8a87961 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -173,7 +173,9 @@ bool Archive::areProgramResultsUnique(
             auto iter = hashesAndResults.find(recording.dataHash);
             if (iter != hashesAndResults.end()) {
                 // Cases 2 & 3
-                if (std::abs(iter->second - recording.result) <= tau) {
+                // (the difference of equal infinite results is not a number)
+                if (iter->second == recording.result ||
+                    std::abs(iter->second - recording.result) <= tau) {
                     // results are equivalent
                     isIdentical = true;
                 }
-- 
2.43.0


From bd1be767c0ad6f11c774cdf18cb3735e86071f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 10/39] fix: the dot export keeps the destinations of edges
 sharing their program

---
 gegelatilib/include/file/tpgGraphDotExporter.h |  6 ++++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp   | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..aa4929e 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,12 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Destination of the first printed TPGEdge of each Program.
+         */
+        std::map<const Program::Program*, const TPG::TPGVertex*>
+            programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..cde2452 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -72,7 +72,10 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
     uint64_t progID;
 
     Program::Program& p = edge.getProgram();
-    if (this->findProgramID(edge.getProgram(), progID)) {
+    auto* dest = edge.getDestination();
+    bool newProgram = this->findProgramID(p, progID);
+    if (newProgram) {
+        this->programDestination[&p] = dest;
         // First time thie Program is encountered
         fprintf(pFile, "%sP%" PRIu64 " [fillcolor=\"#cccccc\" shape=point] //",
                 this->offset.c_str(), progID);
@@ -85,7 +88,10 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
-        auto* dest = edge.getDestination();
+    }
+    // A Program already printed leads to its first destination. Any other
+    // destination must be printed explicitly.
+    if (newProgram || this->programDestination.at(&p) != dest) {
         if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
             uint64_t actionID =
                 printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
@@ -204,6 +210,7 @@ void File::TPGGraphDotExporter::print()
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print all edges
     auto& edges = this->tpg.getEdges();
@@ -229,6 +236,7 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print edges stemming from the given root
     // Init a Breadth First scan
-- 
2.43.0


From 30d44c4eede3de766164f99230138f315e61d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 11/39] fix: the dot export of the sub graph of a root action
 contains this action

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index cde2452..670c47f 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -276,6 +276,11 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
         }
     }
 
+    // A root action is not printed with an edge
+    if (auto action = dynamic_cast<const TPG::TPGAction*>(root)) {
+        this->printTPGAction(*action);
+    }
+
     // Print edges
     for (const TPG::TPGEdge* edge : edgesToPrint) {
         this->printTPGEdge(*edge);
-- 
2.43.0


From 28eb50b6adea2855d1c1811dfb6bdaf42733b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 12/39] fix: TPGGraphDotExporter::setNewFilePath can be called
 after it failed

---
 gegelatilib/include/file/tpgGraphDotExporter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index aa4929e..08098f0 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -206,7 +206,9 @@ namespace File {
         void setNewFilePath(const char* newFilePath)
         {
             //  Close previous file
-            fclose(pFile);
+            if (pFile != NULL) {
+                fclose(pFile);
+            }
 
             // open new one;
             if ((pFile = fopen(newFilePath, "w")) == NULL) {
-- 
2.43.0


From 18488ba8a0447e934a6e415da68d031bd49a3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 13/39] fix: TPGGraphDotImporter reads the long lines written
 for large programs

---
 gegelatilib/include/file/tpgGraphDotImporter.h |  5 +++--
 gegelatilib/src/file/tpgGraphDotImporter.cpp   | 16 +++++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index d57bcce..686af59 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -400,8 +400,9 @@ namespace File {
         };
 
         /**
-         * \brief Maximum number of characters that can be read in a single
-         * line.
+         * \brief Number of characters commonly needed to read a single line.
+         *
+         * Longer lines (e.g. Program with many Line) are supported.
          */
         static const unsigned int MAX_READ_SIZE = 4096;
 
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..37e4e43 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -186,17 +186,16 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
 void File::TPGGraphDotImporter::dumpTPGGraphHeader()
 {
 
-    char buffer[MAX_READ_SIZE];
+    std::string line;
 
     // skips the comment lines of header (if any)
-    do {
-        pFile.getline(buffer, MAX_READ_SIZE);
-    } while (buffer[0] == '/');
+    while (std::getline(pFile, line) && line[0] == '/') {
+    }
 
     // Skip the header (should be 3 lines, including one covered by previous
     // while loop)
     for (int i = 0; i < 2; i++) {
-        pFile.getline(buffer, MAX_READ_SIZE);
+        std::getline(pFile, line);
     }
 }
 
@@ -336,8 +335,6 @@ void File::TPGGraphDotImporter::importGraph()
 
 bool File::TPGGraphDotImporter::readLineFromFile()
 {
-    char buffer[MAX_READ_SIZE];
-
     std::regex testActionDeclare(this->actionRegex);
     std::regex testTeamDeclare(this->teamRegex);
     std::regex testProgramDeclare(this->programRegex);
@@ -349,11 +346,8 @@ bool File::TPGGraphDotImporter::readLineFromFile()
 
     std::smatch matches;
 
-    if (!pFile.getline(buffer, MAX_READ_SIZE))
+    if (!std::getline(pFile, this->lastLine))
         throw std::ifstream::failure("Couldn't read in the given file");
-    else {
-        this->lastLine = buffer;
-    }
 
     // check the line shape and parse it
     if (std::regex_search(this->lastLine, matches, testTeamDeclare)) {
-- 
2.43.0


From 29a248c71a0e3a9659333b441e340cec19de9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 14/39] fix: TPGGraphDotImporter no longer takes an interrupted
 export for a complete graph

---
 gegelatilib/include/file/tpgGraphDotImporter.h | 4 +++-
 gegelatilib/src/file/tpgGraphDotImporter.cpp   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index 686af59..d54921b 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -370,7 +370,9 @@ namespace File {
          *	\brief reads a single line of the file
          *
          *	\return true if the line read matched any of the line
-         *characteristics specified as regexs.
+         *characteristics specified as regexs, false at the end of the graph.
+         *  \throws std::ifstream::failure if the end of the file is reached
+         *or if the line is not part of a graph.
          */
         bool readLineFromFile();
 
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 37e4e43..282e56c 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -378,6 +378,10 @@ bool File::TPGGraphDotImporter::readLineFromFile()
     else if (std::regex_search(this->lastLine, matches, testLinkTP)) {
         readLinkTeamProgram(matches);
     }
+    else if (this->lastLine.find('}') == std::string::npos) {
+        // The end of the graph was not reached: the file is incomplete
+        throw std::ifstream::failure("Unexpected line in the given file");
+    }
     else {
         return false;
     }
-- 
2.43.0


From 9e2007ef8ba7df329195de697dbcdccd321dc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 15/39] fix: TPGGraphDotImporter reads identifiers on 64 bits
 as they are exported

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 34 ++++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 282e56c..6110070 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -69,10 +69,10 @@ void File::TPGGraphDotImporter::readOperands(std::string& str, Program::Line& l)
 
     for (int i = 0; i < this->tpg.getEnvironment().getMaxNbOperands(); ++i) {
         pos2 = str.find("|");
-        dataIndex = std::stoi(str.substr(pos, pos2));
+        dataIndex = std::stoull(str.substr(pos, pos2));
         pos2++; // skip the '|'
         pos3 = str.find("#");
-        location = std::stoi(str.substr(pos2, pos3 - pos2));
+        location = std::stoull(str.substr(pos2, pos3 - pos2));
         str = str.substr(pos3 + 1,
                          str.size() -
                              pos3); // store the rest of the string and iterate
@@ -87,7 +87,7 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
     // a line is stored in the .dot file with the following format
     // inst_idx|dest_idx&op1_param1|op1_param2#...#opN_param1|opN_param2
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t prog_label = std::stoi(matches[1]);
+        uint64_t prog_label = std::stoull(matches[1]);
         std::string label = matches[2];
 
         auto p_it = programID.find(prog_label);
@@ -120,12 +120,12 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
                 // extract everything before pos (ie |)
                 // corresponds to instruction index
                 pos1 = instruction.find("|");
-                instructionIdx = std::stoi(instruction.substr(0, pos1));
+                instructionIdx = std::stoull(instruction.substr(0, pos1));
 
                 // extract destination index;
                 pos2 = instruction.find("&");
                 pos1++; // skip the '|'
-                destinationIdx = std::stoi(instruction.substr(
+                destinationIdx = std::stoull(instruction.substr(
                     pos1, pos2 - pos1)); // extract and convert to int
 
                 // extract operands as a string
@@ -179,7 +179,7 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
         }
         this->programID.insert(
             std::pair<uint64_t, std::shared_ptr<Program::Program>>(
-                std::stoi(matches[1]), p));
+                std::stoull(matches[1]), p));
     }
 }
 
@@ -203,7 +203,7 @@ void File::TPGGraphDotImporter::readTeam(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         this->vertexID.insert(std::pair<uint64_t, const TPG::TPGVertex*>(
-            std::stoi(matches[1]), &this->tpg.addNewTeam()));
+            std::stoull(matches[1]), &this->tpg.addNewTeam()));
     }
 }
 
@@ -211,8 +211,8 @@ void File::TPGGraphDotImporter::readAction(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         // the regex matches two groups (action number and action label)
-        uint64_t action_label = std::stoi(matches[2]);
-        uint64_t action_number = std::stoi(matches[1]);
+        uint64_t action_label = std::stoull(matches[2]);
+        uint64_t action_number = std::stoull(matches[1]);
 
         // elmt points to the action with the same label as the action we are
         // parsing
@@ -231,9 +231,9 @@ void File::TPGGraphDotImporter::readLinkTeamProgramAction(std::smatch& matches)
 {
     // Creating a edge from a team to an action
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
-        uint64_t act_out = std::stoi(matches[3]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
+        uint64_t act_out = std::stoull(matches[3]);
 
         // get the action depending on its label
         auto action_lab = this->actionLabel.find(act_out);
@@ -257,9 +257,9 @@ void File::TPGGraphDotImporter::readLinkTeamProgramTeam(std::smatch& matches)
 {
     // creating a edge between two teams
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
-        uint64_t team_out = std::stoi(matches[3]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
+        uint64_t team_out = std::stoull(matches[3]);
 
         // get the source and destination teams
         auto t1_it = this->vertexID.find(team_in);
@@ -282,8 +282,8 @@ void File::TPGGraphDotImporter::readLinkTeamProgramTeam(std::smatch& matches)
 void File::TPGGraphDotImporter::readLinkTeamProgram(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
-        uint64_t team_in = std::stoi(matches[1]);
-        uint64_t program = std::stoi(matches[2]);
+        uint64_t team_in = std::stoull(matches[1]);
+        uint64_t program = std::stoull(matches[2]);
 
         // find edge
         const std::list<std::unique_ptr<TPG::TPGEdge>>& edges =
-- 
2.43.0


From 71973f9c73cd0f855700be41fbe55439281a33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 16/39] fix: an ill-formed parameter file is ignored entirely

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..9d47c62 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // Ignore also what was parsed before the error
+        root = Json::Value();
     }
 }
 
-- 
2.43.0


From 781b49eeec070fb6b59064d200be7cc920906ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 17/39] fix: parameters written on 64 bits can be read back

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 9d47c62..da60941 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -104,19 +104,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -145,7 +145,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -165,7 +165,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -181,7 +181,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -209,15 +209,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From b3fc9f56a5b7882448c63c8e6106546e712a8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 18/39] fix: 1D operands are printed with the width of their 2D
 source

---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 16f19e24085499217b513f6ce8d3a9f43fb15d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 19/39] fix: the stack code generator handles a root that is an
 action

---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From f51b981f27b325e55979d779c18628256fb43cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 20/39] fix: the stack code generator accepts several actions
 with the same ID

---
 .../src/codeGen/tpgStackGenerationEngine.cpp    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 65ff8a3..d0b71ca 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -38,6 +38,8 @@
 
 #ifdef CODE_GENERATION
 
+#include <set>
+
 #include "codeGen/tpgStackGenerationEngine.h"
 
 CodeGen::TPGStackGenerationEngine::TPGStackGenerationEngine(
@@ -133,13 +135,18 @@ void CodeGen::TPGStackGenerationEngine::generateTPGGraph()
 
     std::map<const TPG::TPGTeam*, std::list<TPG::TPGEdge*>> graph;
     auto vertices = this->tpg.getVertices();
+    // several vertices may hold the same actionID: define its function once
+    std::set<uint64_t> actionIDs;
     // give an id for each team of the graph
     for (auto vertex : vertices) {
         if (dynamic_cast<const TPG::TPGTeam*>(vertex) != nullptr) {
             generateTeam(*(const TPG::TPGTeam*)vertex);
         }
         else if (dynamic_cast<const TPG::TPGAction*>(vertex) != nullptr) {
-            generateAction(*(const TPG::TPGAction*)vertex);
+            auto action = (const TPG::TPGAction*)vertex;
+            if (actionIDs.insert(action->getActionID()).second) {
+                generateAction(*action);
+            }
         }
     }
     setRoot(*tpg.getRootVertices().at(0));
@@ -205,9 +212,13 @@ void CodeGen::TPGStackGenerationEngine::initHeaderFile()
     fileMainH << "#include <stdlib.h>\n\n";
 
     fileMainH << "typedef enum Vertex {";
+    std::set<std::string> names;
     for (auto vertex : this->tpg.getVertices()) {
-        fileMainH << vertexName(*vertex) << "Vert"
-                  << ", ";
+        // several vertices may hold the same actionID: declare it once
+        if (names.insert(vertexName(*vertex)).second) {
+            fileMainH << vertexName(*vertex) << "Vert"
+                      << ", ";
+        }
     }
 
     fileMainH << "} Vertex;\n\n"
-- 
2.43.0


From d33ec2259ffdf044eb353bb1997c385200af7292 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 21/39] fix: initialising a learning agent forgets the results
 of the removed roots

---
 gegelatilib/src/learn/learningAgent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..77c0bcb 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -78,8 +78,8 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Clear the best root and the results of the removed roots
+    this->forgetPreviousResults();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
-- 
2.43.0


From 4bd2ee8bf011c44758f2b2e1bb76dd4b1b763d77 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 22/39] fix: keepBestPolicy keeps the best root only, and
 forgets the removed ones

---
 gegelatilib/src/learn/learningAgent.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 77c0bcb..5e84c4f 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -422,13 +422,16 @@ void Learn::LearningAgent::keepBestPolicy()
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
-            auto roots = this->tpg->getRootVertices();
+        auto roots = this->tpg->getRootVertices();
+        while (roots.size() != 1 || roots.front() != bestRootVertex) {
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
                 }
             }
+            roots = this->tpg->getRootVertices();
         }
     }
 }
-- 
2.43.0


From 8fddc0a3442fa366fa4ced43149f9173c5b0cc55 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 23/39] fix: updating the records with no surviving root

---
 gegelatilib/src/learn/learningAgent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 5e84c4f..5efd60c 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -376,7 +376,14 @@ void Learn::LearningAgent::updateEvaluationRecords(
         }
     }
 
-    { // Update bestRoot
+    if (results.empty()) {
+        // All roots were decimated, there is no candidate.
+        if (this->bestRoot.first != nullptr &&
+            !this->tpg->hasVertex(*this->bestRoot.first)) {
+            this->bestRoot = {nullptr, nullptr};
+        }
+    }
+    else { // Update bestRoot
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
         const TPG::TPGVertex* candidate = iterator->second;
-- 
2.43.0


From d17b5c6dd19541bd70a47497fc976e80eba459b2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 24/39] fix: forget the results when a generation starts from a
 new graph

---
 gegelatilib/src/learn/learningAgent.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 5efd60c..a4b0d30 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -229,6 +230,17 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // Without root team, the TPG will be initialized again: results of its
+    // current vertices must not be associated to the new ones.
+    auto roots = this->tpg->getRootVertices();
+    if (std::none_of(roots.begin(), roots.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
-- 
2.43.0


From cffadef3adca6dbf77d8ff5131f4d9fd6ea9ed06 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 25/39] fix: combining results without evaluations gives NaN

---
 .../src/learn/adversarialEvaluationResult.cpp |  5 ++++-
 .../learn/classificationEvaluationResult.cpp  | 20 ++++++++++---------
 gegelatilib/src/learn/evaluationResult.cpp    | 11 ++++++----
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/gegelatilib/src/learn/adversarialEvaluationResult.cpp b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
index 77a41a9..c5cb678 100644
--- a/gegelatilib/src/learn/adversarialEvaluationResult.cpp
+++ b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
@@ -61,7 +61,10 @@ Learn::EvaluationResult& Learn::AdversarialEvaluationResult::operator+=(
 
     // If the added type is Learn::EvaluationResult
     // Weighted addition of results
-    for (int i = 0; i < scores.size(); i++) {
+    // (if there was any evaluation)
+    for (int i = 0; i < scores.size() &&
+                    this->nbEvaluation + otherConverted.nbEvaluation > 0;
+         i++) {
         this->scores[i] =
             this->scores[i] * (double)this->nbEvaluation +
             otherConverted.scores[i] * (double)otherConverted.nbEvaluation;
diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..5adba8b 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,17 +65,19 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
-            // Weighted sum of scores.
-            this->scorePerClass.at(idx) =
-                this->scorePerClass.at(idx) *
+            // Weighted sum of scores (if there was any evaluation)
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) >
+                0) {
+                this->scorePerClass.at(idx) =
+                    this->scorePerClass.at(idx) *
+                        (double)this->nbEvaluationPerClass.at(idx) +
+                    otherEval.scorePerClass.at(idx) *
+                        (double)otherEval.nbEvaluationPerClass.at(idx);
+                this->scorePerClass.at(idx) /=
                     (double)this->nbEvaluationPerClass.at(idx) +
-                otherEval.scorePerClass.at(idx) *
                     (double)otherEval.nbEvaluationPerClass.at(idx);
-            this->scorePerClass.at(idx) /=
-                (double)this->nbEvaluationPerClass.at(idx) +
-                (double)otherEval.nbEvaluationPerClass.at(idx);
-            ;
-
+            }
             // Sum of number of evaluation per class
             this->nbEvaluationPerClass.at(idx) +=
                 otherEval.nbEvaluationPerClass.at(idx);
diff --git a/gegelatilib/src/learn/evaluationResult.cpp b/gegelatilib/src/learn/evaluationResult.cpp
index cffb98b..bb08eeb 100644
--- a/gegelatilib/src/learn/evaluationResult.cpp
+++ b/gegelatilib/src/learn/evaluationResult.cpp
@@ -58,10 +58,13 @@ Learn::EvaluationResult& Learn::EvaluationResult::operator+=(
 
     // If the added type is Learn::EvaluationResult
     if (thisType == typeid(Learn::EvaluationResult)) {
-        // Weighted addition of results
-        this->result = this->result * (double)this->nbEvaluation +
-                       other.result * (double)other.nbEvaluation;
-        this->result /= (double)this->nbEvaluation + (double)other.nbEvaluation;
+        // Weighted addition of results (if there was any evaluation)
+        if (this->nbEvaluation + other.nbEvaluation > 0) {
+            this->result = this->result * (double)this->nbEvaluation +
+                           other.result * (double)other.nbEvaluation;
+            this->result /=
+                (double)this->nbEvaluation + (double)other.nbEvaluation;
+        }
 
         // Addition ot nbEvaluation
         this->nbEvaluation += other.nbEvaluation;
-- 
2.43.0


From e8e04850d6f53c03824378e0986cbab4dae06c29 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 26/39] fix: tell the iteration and the generation to all
 environments

---
 gegelatilib/include/learn/classificationLearningAgent.h | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index 978d11b..5204f88 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -172,7 +172,7 @@ namespace Learn {
             uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
             // Reset the learning Environment
-            le.reset(hash, mode);
+            le.reset(hash, mode, i, generationNumber);
 
             uint64_t nbActions = 0;
             while (!le.isTerminal() &&
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..477cd5d 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -140,7 +140,7 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
         uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
         // Reset the learning Environment
-        ale.reset(hash, mode);
+        ale.reset(hash, mode, i, generationNumber);
 
         uint64_t nbActions = 0;
 
-- 
2.43.0


From 863612b0bd41ccb551cf17831eb5e96534eaa2f5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 27/39] fix: evaluations in parallel with no thread

---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 5cde6bb..73b89a9 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -238,13 +238,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     // Clone the learningEnvironment for each slave thread. This must be done
     // before any thread starts using the main environment.
     std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
-    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+    for (auto i = 0; i + 1 < this->maxNbThreads; i++) {
         privateEnvironments.emplace_back(this->learningEnvironment.clone());
     }
 
     // Create the threads
     std::vector<std::thread> threads;
-    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+    for (auto i = 0; i + 1 < this->maxNbThreads; i++) {
         threads.emplace_back(std::thread(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
-- 
2.43.0


From eda3e89bfb8d9cf3a629094ab041bccd099dc7d8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 28/39] fix: adversarial champions removed from the graph are
 forgotten

---
 .../include/learn/adversarialLearningAgent.h  | 22 ++++++++++++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    | 26 +++++++++++++++++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..c0d90c6 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -87,6 +87,11 @@ namespace Learn {
          */
         size_t agentsPerEvaluation;
 
+        /**
+         * \brief Forget the champions which are not in the TPGGraph anymore.
+         */
+        void removeLostChampions();
+
         /**
          * \brief Subfunction of evaluateAllRootsInParallel which handles the
          * gathering of results and the merge of the archives, adapted to
@@ -229,6 +234,23 @@ namespace Learn {
             Learn::LearningMode mode,
             TPG::TPGGraph* tpgGraph = nullptr) override;
 
+        /**
+         * \brief Train the TPGGraph for one generation.
+         *
+         * Champions removed from the TPGGraph since the last evaluation are
+         * forgotten before the TPGGraph is populated with new TPGVertex.
+         *
+         * \param[in] generationNumber the integer number of the current
+         * generation.
+         */
+        void trainOneGeneration(uint64_t generationNumber) override;
+
+        /**
+         * \brief This method resets the previous registered scores per root,
+         * and the champions.
+         */
+        void forgetPreviousResults() override;
+
         /**
          * \brief Override of the LearningAgent::makeJob function.
          *
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..072fb7d 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -352,7 +352,7 @@ namespace Learn {
          * been tested. To use for example when there is a scoring policy
          * change.
          */
-        void forgetPreviousResults();
+        virtual void forgetPreviousResults();
 
         /**
          * \brief This method update the best score reached at the last
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 477cd5d..bcd2cbc 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -189,6 +190,9 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // champions may have been removed since the last evaluation
+    this->removeLostChampions();
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
@@ -260,3 +264,25 @@ std::shared_ptr<Learn::Job> Learn::AdversarialLearningAgent::makeJob(
     throw std::runtime_error(
         "Method not supported in AdversarialLearningAgent.");
 }
+
+void Learn::AdversarialLearningAgent::removeLostChampions()
+{
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [this](const TPG::TPGVertex* champion) {
+                                       return !this->tpg->hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
+void Learn::AdversarialLearningAgent::trainOneGeneration(
+    uint64_t generationNumber)
+{
+    this->removeLostChampions();
+    ParallelLearningAgent::trainOneGeneration(generationNumber);
+}
+
+void Learn::AdversarialLearningAgent::forgetPreviousResults()
+{
+    ParallelLearningAgent::forgetPreviousResults();
+    champions.clear();
+}
-- 
2.43.0


From 2b3b636808e27459bac2d71ce13787e391fc44d7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 29/39] fix: adversarial evaluations when no root is deleted

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index bcd2cbc..933c47c 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -196,6 +196,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
-- 
2.43.0


From b3bb42706f5cd7438d43ee1c9baf8bdd191442d8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 30/39] fix: the number of adversarial champions suffers from
 rounding

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 933c47c..eb49ba8 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -35,6 +35,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <memory>
 
@@ -113,10 +114,11 @@ void Learn::AdversarialLearningAgent::evaluateAllRootsInParallelCompileResults(
 
     champions.clear();
     auto iterator = results.end();
-    for (int i = 0; i <= (1.0 - params.ratioDeletedRoots) *
-                                 (double)tpg->getNbRootVertices() -
-                             1.0;
-         i++) {
+    // Champions are the roots which will be kept by decimateWorstRoots.
+    auto nbRoots = tpg->getNbRootVertices();
+    auto nbChampions =
+        nbRoots - (uint64_t)floor(params.ratioDeletedRoots * (double)nbRoots);
+    for (uint64_t i = 0; i < nbChampions; i++) {
         champions.emplace_back((--iterator)->second);
     }
     // Merge the archives
-- 
2.43.0


From 3fedd5a80627add0f0b0aa4643bf0ddd4a9d8d9d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 31/39] fix: the archive mixes the recordings of a freed
 program with those of a new one at the same address

---
 gegelatilib/include/archive.h         | 11 +++++++----
 gegelatilib/include/program/program.h | 27 +++++++++++++++++++++++++--
 gegelatilib/src/archive.cpp           |  8 ++++----
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/include/archive.h b/gegelatilib/include/archive.h
index 123bc01..84d0257 100644
--- a/gegelatilib/include/archive.h
+++ b/gegelatilib/include/archive.h
@@ -65,6 +65,10 @@ typedef struct ArchiveRecording
     /// Value returned by the Program for the DataHandler with the specified
     /// hash.
     const double result;
+
+    /// Identifier of the Program. Unlike its address, it is not used by
+    /// another Program once the Program is freed.
+    const uint64_t progID;
 } ArchiveRecording;
 
 /**
@@ -108,8 +112,8 @@ class Archive
         dataHandlers;
 
     /**
-     * \brief Map storing the Program pointers referenced in recordings the
-     * associated recording.
+     * \brief Map storing the identifiers of the Program referenced in
+     * recordings and the associated recording.
      *
      * The Map is filled in the addRecording method, and elements are removed
      * whenever the las ArchiveRecording referencing a Program is removed from
@@ -117,8 +121,7 @@ class Archive
      *
      * The Map is used to speed the unicity tests.
      */
-    std::map<const Program::Program*, std::deque<ArchiveRecording>>
-        recordingsPerProgram;
+    std::map<uint64_t, std::deque<ArchiveRecording>> recordingsPerProgram;
 
     /// Recordings of the Archive
     std::deque<ArchiveRecording> recordings;
diff --git a/gegelatilib/include/program/program.h b/gegelatilib/include/program/program.h
index ae4b77c..14a8aef 100644
--- a/gegelatilib/include/program/program.h
+++ b/gegelatilib/include/program/program.h
@@ -38,6 +38,8 @@
 #define PROGRAM_H
 
 #include <algorithm>
+#include <atomic>
+#include <cstdint>
 #include <vector>
 
 #include "data/constantHandler.h"
@@ -52,6 +54,17 @@ namespace Program {
     class Program
     {
       protected:
+        /// Number of Program created, used to initialize their identifiers.
+        inline static std::atomic<uint64_t> count{0};
+
+        /**
+         * \brief Identifier of the Program.
+         *
+         * Unlike its address, the identifier of a Program is never used again
+         * for another Program.
+         */
+        const uint64_t id;
+
         /// Environment within which the Program will be executed.
         const Environment& environment;
 
@@ -87,7 +100,7 @@ namespace Program {
          * in the Program attributes.
          */
         Program(const Environment& e)
-            : environment{e}, constants{e.getNbConstant()}
+            : id{count++}, environment{e}, constants{e.getNbConstant()}
         {
             constants.resetData(); // force all constant to 0 at first.
         };
@@ -101,7 +114,7 @@ namespace Program {
          * \param[in] other a const reference the the copied Program.
          */
         Program(const Program& other)
-            : environment{other.environment}, lines{other.lines},
+            : id{count++}, environment{other.environment}, lines{other.lines},
               constants{other.constants}
         {
             // Replace lines with their copy
@@ -122,6 +135,16 @@ namespace Program {
          */
         Program& operator=(const Program& other) = delete;
 
+        /**
+         * \brief Get the identifier of the Program.
+         *
+         * \return the identifier, different for each Program created.
+         */
+        uint64_t getID() const
+        {
+            return this->id;
+        }
+
         /**
          * \brief Destructor for the Program class.
          *
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 8a87961..a81482b 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -96,16 +96,16 @@ void Archive::addRecording(
         }
 
         // Create and stores the recording
-        ArchiveRecording recording{program, hash, result};
+        ArchiveRecording recording{program, hash, result, program->getID()};
         this->recordings.push_back(recording);
 
         // Update the recordings per Program
-        auto iterNbRecordings = this->recordingsPerProgram.find(program);
+        auto iterNbRecordings = this->recordingsPerProgram.find(recording.progID);
         if (iterNbRecordings != this->recordingsPerProgram.end()) {
             iterNbRecordings->second.push_back(recording);
         }
         else {
-            this->recordingsPerProgram.insert({program, {recording}});
+            this->recordingsPerProgram.insert({recording.progID, {recording}});
         }
 
         // Check if Archive max size was reached (or exceeded)
@@ -138,7 +138,7 @@ void Archive::addRecording(
 
             // Update the recordingsPerProgram of the corresponding Program,
             // and remove it if it was the last.
-            auto iter = this->recordingsPerProgram.find(rec.prog);
+            auto iter = this->recordingsPerProgram.find(rec.progID);
             iter->second.pop_front();
             if (iter->second.size() == 0) {
                 this->recordingsPerProgram.erase(iter);
-- 
2.43.0


From 14f3d4f712b622dc15d6305cd975e1392c559b4e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 32/39] fix: the statistics of a graph with a root action fail
 with std::bad_cast

---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..d421982 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,10 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            const auto& rootVertex =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + rootVertex.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0


From 5978609b2ad7cbe9469906f9339556d29f301587 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 33/39] fix: a graph with a cycle is also logged as a graph
 without cycle

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..2e62153 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,8 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        // Early termination
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 7edd275afdd8b1415c070c9c390488d2dddb3447 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 34/39] fix: the statistics of a new best root are not logged
 when it is stored at the address of a previous one

---
 gegelatilib/include/log/laPolicyStatsLogger.h |  4 +---
 gegelatilib/src/log/laPolicyStatsLogger.cpp   | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/log/laPolicyStatsLogger.h b/gegelatilib/include/log/laPolicyStatsLogger.h
index 863efa7..c7932bc 100644
--- a/gegelatilib/include/log/laPolicyStatsLogger.h
+++ b/gegelatilib/include/log/laPolicyStatsLogger.h
@@ -84,9 +84,7 @@ namespace Log {
         };
 
         /// Inherited from LALogger
-        void logAfterPopulateTPG() override{
-            // nothing to log
-        };
+        void logAfterPopulateTPG() override;
 
         /// Inherited from LALogger
         void logAfterDecimate() override;
diff --git a/gegelatilib/src/log/laPolicyStatsLogger.cpp b/gegelatilib/src/log/laPolicyStatsLogger.cpp
index d10032e..26babbe 100644
--- a/gegelatilib/src/log/laPolicyStatsLogger.cpp
+++ b/gegelatilib/src/log/laPolicyStatsLogger.cpp
@@ -42,8 +42,23 @@ void Log::LAPolicyStatsLogger::logNewGeneration(uint64_t& generationNumber)
     this->generationNumber = generationNumber;
 }
 
+void Log::LAPolicyStatsLogger::logAfterPopulateTPG()
+{
+    if (this->learningAgent.getBestRoot().first == nullptr) {
+        // The LearningAgent was initialized again: a new root may be stored at
+        // the address of the last one.
+        this->lastBestRoot = nullptr;
+    }
+}
+
 void Log::LAPolicyStatsLogger::logAfterDecimate()
 {
+    if (this->learningAgent.getBestRoot().first == nullptr) {
+        // All roots were removed
+        this->lastBestRoot = nullptr;
+        return;
+    }
+
     if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
         // Update the best root befor loggin it PolicyStats
         this->lastBestRoot = this->learningAgent.getBestRoot().first;
-- 
2.43.0


From 2b11ed43826c79b3750f7f0d5ba7215e28e81ad2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 35/39] fix: a copy of an Environment references the registers
 and constants of the original

---
 gegelatilib/include/environment.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gegelatilib/include/environment.h b/gegelatilib/include/environment.h
index a280a74..040289c 100644
--- a/gegelatilib/include/environment.h
+++ b/gegelatilib/include/environment.h
@@ -224,6 +224,16 @@ class Environment
             this->fakeDataSources.push_back(elem);
     };
 
+    /**
+     * \brief Copy constructor.
+     *
+     * The fake registers and constants of the copied Environment must not be
+     * referenced by its copy, which may outlive it.
+     */
+    Environment(const Environment& other)
+        : Environment(other.instructionSet, other.dataSources,
+                      other.nbRegisters, other.nbConstants){};
+
     /**
      * \brief Get the size of the number of registers of this Environment.
      *
-- 
2.43.0


From 598e5256ae1c59250546e9832ece60f99e16158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 36/39] fix: count edges leading to visited teams in inference
 trace statistics

The execution engine evaluates every outgoing edge of each visited team,
also those leading back to a team already visited, but the statistics of a
trace left these edges out: programs, lines and instructions of the trace
(and their distributions) were lower than what was executed.
---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index d421982..0dfefdb 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -137,13 +137,8 @@ void TPG::ExecutionStats::analyzeInferenceTrace(
     for (auto it = trace.begin(); it != trace.end() - 1; it++) {
         for (auto edge : (*it)->getOutgoingEdges()) {
 
-            // Edges leading to a previously visited teams (including the
-            // current team) are not evaluated
-            auto endSearchIt = it + 1;
-            if (std::find(trace.begin(), endSearchIt, edge->getDestination()) !=
-                endSearchIt)
-                continue;
-
+            // All outgoing edges are evaluated, including those leading to a
+            // previously visited team.
             nbEvaluatedPrograms++;
             nbExecutedLines += edge->getProgram().getNbLines();
 
-- 
2.43.0


From 64aefc5cce0db24683647d9c2697730381c9f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 37/39] fix: an engine refusing a program or data sources is
 left unchanged

---
 gegelatilib/include/program/programEngine.h | 16 ++++++++++++
 gegelatilib/src/program/programEngine.cpp   | 27 ++++++++++++++++-----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/gegelatilib/include/program/programEngine.h b/gegelatilib/include/program/programEngine.h
index 00e26a7..3ff3376 100644
--- a/gegelatilib/include/program/programEngine.h
+++ b/gegelatilib/include/program/programEngine.h
@@ -38,6 +38,8 @@
 #ifndef PROGRAMENGINE_H
 #define PROGRAMENGINE_H
 
+#include <stdexcept>
+
 #include "data/primitiveTypeArray.h"
 #include "data/untypedSharedPtr.h"
 #include "program/program.h"
@@ -291,6 +293,20 @@ namespace Program {
         // Check that T is either convertible to a const DataHandler
         static_assert(std::is_convertible<T&, const Data::DataHandler&>::value);
 
+        // Check that the new data sources are (copies of) those of the
+        // Environment before changing anything.
+        const auto& envDataSrc =
+            this->program->getEnvironment().getDataSources();
+        for (size_t idx = 0; idx < dataSrc.size(); idx++) {
+            const Data::DataHandler& newSrc = dataSrc.at(idx);
+            if (idx >= envDataSrc.size() ||
+                newSrc.getId() != envDataSrc.at(idx).get().getId()) {
+                throw std::runtime_error(
+                    "Data sources characteristics for Program Execution differ "
+                    "from Program reference Environment.");
+            }
+        }
+
         // Replace the references in attributes
         this->dataSources = dataSrc;
         // we need this offset to push the constant at the first
diff --git a/gegelatilib/src/program/programEngine.cpp b/gegelatilib/src/program/programEngine.cpp
index 1e2be82..c70d120 100644
--- a/gegelatilib/src/program/programEngine.cpp
+++ b/gegelatilib/src/program/programEngine.cpp
@@ -40,13 +40,24 @@
 
 void Program::ProgramEngine::setProgram(const Program& prog)
 {
+    // All checks are made before changing anything, so that the engine is
+    // unchanged when the program is refused.
+
     // are constants used here ?
-    size_t offset = 1;
-    if (prog.getEnvironment().getNbConstant() > 0) {
-        // replace programs constants if already existing
-        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
-        // increment offset for the datahandlers verification
-        offset++;
+    // increment offset for the datahandlers verification if it is the case
+    const bool hasConstants = prog.getEnvironment().getNbConstant() > 0;
+    const size_t offset = hasConstants ? 2 : 1;
+
+    // Check that the registers and constants of the engine suit the program
+    const bool engineHasConstants =
+        dataScsConstsAndRegs.size() > 1 &&
+        dynamic_cast<const Data::ConstantHandler*>(
+            &dataScsConstsAndRegs.at(1).get()) != nullptr;
+    if (hasConstants != engineHasConstants ||
+        this->registers.getLargestAddressSpace() !=
+            prog.getEnvironment().getNbRegisters()) {
+        throw std::runtime_error("Registers or constants for Program Execution "
+                                 "differ from Program reference Environment.");
     }
 
     // Check dataSource are similar in all point to the program environment
@@ -78,6 +89,10 @@ void Program::ProgramEngine::setProgram(const Program& prog)
             // space size for each data type.
         }
     }
+    // replace programs constants if already existing
+    if (hasConstants) {
+        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
+    }
     // set the program
     this->program = &prog;
     // Reset Registers (in case it is not done when they are constructed)
-- 
2.43.0


From 314984341a38abea68ae61018b43ac49c3d32226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 38/39] fix: print operand types made of several words in the
 generated code

---
 gegelatilib/include/instructions/instruction.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/instructions/instruction.h b/gegelatilib/include/instructions/instruction.h
index 7f5a061..383ee20 100644
--- a/gegelatilib/include/instructions/instruction.h
+++ b/gegelatilib/include/instructions/instruction.h
@@ -125,9 +125,10 @@ namespace Instructions {
          * \endcode
          * match 1 to infinite words separated by \c : . Allow to match \c
          *Data::Constant. \code{.unparse}
-         * ((struct )?[\\w:\\*]*)
+         * ((struct )?[\\w:\\*]+( [\\w:\\*]+)*)
          * \endcode
-         * match the primitive type of the operand. For MSVC Data::Constant is a
+         * match the primitive type of the operand, which may be made of several
+         * words (e.g. unsigned char). For MSVC Data::Constant is a
          *struct so we need to match this possibility too. \code{.unparse} [ ]?
          * \endcode
          * match if the operand is a 1D array without a static size. This
@@ -142,7 +143,8 @@ namespace Instructions {
          * match 0 to infinite dimensions that have static size.
          **/
         inline static const std::string GET_PRINT_PRIMITIVE_OPERAND_TYPE{
-            "(const )?((struct )?[\\w:\\*]*)[ ]?(\\[(\\d)+\\])*"};
+            "(const )?((struct )?[\\w:\\*]+( [\\w:\\*]+)*)[ ]?"
+            "(\\[(\\d)+\\])*"};
 
 #endif // CODE_GENERATION
 
-- 
2.43.0


From e1e0337412390fcaa439f0cf596fafe23782e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 39/39] fix: reading an Array2DWrapper with a null pointer
 throws as for the other wrappers

---
 gegelatilib/include/data/array2DWrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 36b817e..531ef3a 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -278,6 +278,9 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0

