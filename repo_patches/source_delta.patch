From 87e7900e497ae7ad378029b0d0d0f616feb1f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 01/80] fix: reject an API handle equal to the registry size
 (off-by-one bound check)

---
 src/pinvoke_api.cpp | 34 +++++++++++++++++-----------------
 src/wasm_api.cpp    | 40 ++++++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..300ace2 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -851,7 +851,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -904,7 +904,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1286,7 +1286,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1327,7 +1327,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3473,7 +3473,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3527,7 +3527,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3718,7 +3718,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index 336976a..0163901 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -45,7 +45,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         throw std::invalid_argument("Invalid argument: simulator ID not found!");                                      \
     }                                                                                                                  \
     QInterfacePtr simulator = simulators[sid];                                                                         \
@@ -55,7 +55,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         throw std::invalid_argument("Invalid argument: simulator ID not found!");                                      \
     }                                                                                                                  \
                                                                                                                        \
@@ -98,7 +98,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         throw std::invalid_argument("Invalid argument: neuron ID not found!");                                         \
     }                                                                                                                  \
                                                                                                                        \
@@ -109,7 +109,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         throw std::invalid_argument("Invalid argument: neuron ID not found!");                                         \
     }                                                                                                                  \
                                                                                                                        \
@@ -146,7 +146,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         throw std::invalid_argument("Invalid argument: circuit ID not found!");                                        \
     }                                                                                                                  \
                                                                                                                        \
@@ -157,7 +157,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         throw std::invalid_argument("Invalid argument: neuron ID not found!");                                         \
     }                                                                                                                  \
                                                                                                                        \
@@ -171,10 +171,10 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         throw std::invalid_argument("Invalid argument: simulator ID not found!");                                      \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         throw std::invalid_argument("Invalid argument: neuron ID not found!");                                         \
     }                                                                                                                  \
                                                                                                                        \
@@ -198,10 +198,10 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         throw std::invalid_argument("Invalid argument: simulator ID not found!");                                      \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         throw std::invalid_argument("Invalid argument: neuron ID not found!");                                         \
     }                                                                                                                  \
                                                                                                                        \
@@ -685,7 +685,7 @@ quid init_clone(quid sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
     QInterfacePtr oSimulator = simulators[sid];
@@ -725,7 +725,7 @@ quid init_clone_size(quid sid, bitLenInt n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Simulator ID not found!");
     }
     QInterfacePtr oSimulator = simulators[sid];
@@ -951,7 +951,7 @@ void allocateQubit(quid sid, bitLenInt qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
 
@@ -981,7 +981,7 @@ bool release(quid sid, bitLenInt q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
     QInterfacePtr simulator = simulators[sid];
@@ -1529,7 +1529,7 @@ bool Measure(quid sid, std::vector<QubitPauliBasis> q)
 
 std::vector<long long unsigned int> MeasureShots(quid sid, std::vector<bitLenInt> q, unsigned s)
 {
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
     QInterfacePtr simulator = simulators[sid];
@@ -1739,7 +1739,7 @@ void CLXNOR(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 
 std::vector<real1> ProbAll(quid sid, std::vector<bitLenInt> q)
 {
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
     QInterfacePtr simulator = simulators[sid];
@@ -2441,7 +2441,7 @@ quid init_qneuron(quid sid, std::vector<bitLenInt> c, bitLenInt q, QNeuronActiva
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         throw std::invalid_argument("Invalid argument: simulator ID not found!");
     }
     QInterfacePtr simulator = simulators[sid];
@@ -2484,7 +2484,7 @@ quid clone_qneuron(quid nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         throw std::invalid_argument("Invalid argument: neuron ID not found!");
     }
     QNeuronPtr neuron = neurons[nid];
@@ -2541,7 +2541,7 @@ void set_qneuron_angles(quid nid, std::vector<real1> angles)
 
 std::vector<real1> get_qneuron_angles(quid nid)
 {
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         throw std::invalid_argument("Invalid argument: neuron ID not found!");
     }
 
@@ -2671,7 +2671,7 @@ quid _init_qcircuit_copy(quid cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         throw std::invalid_argument("Invalid argument: circuit ID not found!");
     }
     QCircuitPtr circuit = circuits[cid];
-- 
2.43.0


From 9b412dc6d5a5d5b2a22b3fce77653f80837ab2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 02/80] fix: check every C API handle for range and null before
 use

---
 src/pinvoke_api.cpp | 75 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 70 insertions(+), 5 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 300ace2..593aeba 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -613,6 +613,10 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -710,7 +714,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -764,7 +768,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -835,7 +839,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -862,6 +866,13 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
 
+    if (!oSimulator) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     uintq nsid = (uintq)simulators.size();
 
     for (uintq i = 0U; i < simulators.size(); ++i) {
@@ -895,7 +906,9 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        FillSimShards(simulator);
+    }
 
     return nsid;
 }
@@ -949,7 +962,9 @@ uintq init_clone_size(uintq sid, uintq n)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        FillSimShards(simulator);
+    }
 
     return nsid;
 }
@@ -960,6 +975,14 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1338,6 +1361,10 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
+    if (!simulator) {
+        return false;
+    }
+
     // Check that the qubit is in the |0> state, to within a small tolerance.
     bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
 
@@ -2223,6 +2250,13 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size())) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     if (!simulators[sid1] || !simulators[sid2]) {
         return;
     }
@@ -2271,6 +2305,13 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
     SIMULATOR_LOCK_GUARD_INT(sid)
 
+    if ((nSid >= simulators.size()) || !simulators[nSid]) {
+        // The destination could not be allocated, (and its error is already recorded).
+        simulatorErrors[sid] = 1;
+
+        return nSid;
+    }
+
     bitLenInt nQubitIndex = 0U;
 
     try {
@@ -3538,6 +3579,10 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
     std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock(
         new const std::lock_guard<std::mutex>(neuronMutexes[neuron.get()]));
 
+    if (!neuron) {
+        return 0U;
+    }
+
     uintq nnid = (uintq)neurons.size();
 
     for (uintq i = 0U; i < neurons.size(); ++i) {
@@ -3567,6 +3612,14 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3729,6 +3782,10 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
     std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock(
         new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()]));
 
+    if (!circuit) {
+        return 0U;
+    }
+
     uintq ncid = (uintq)circuits.size();
 
     for (uintq i = 0U; i < circuits.size(); ++i) {
@@ -3768,6 +3825,14 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From 32c6cf7fbd8aadfdb2d253eb42f76bf94f4f632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 03/80] fix: report unsupported ALU/parity requests instead of
 dereferencing a null cast

---
 src/pinvoke_api.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 593aeba..c58e640 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -249,11 +249,34 @@
     }
 #endif
 
-#define QALU(qReg) std::dynamic_pointer_cast<QAlu>(qReg)
-#define QPARITY(qReg) std::dynamic_pointer_cast<QParity>(qReg)
+#define QALU(qReg) AsAlu(qReg)
+#define QPARITY(qReg) AsParity(qReg)
 
 using namespace Qrack;
 
+// Not every layer stack implements the ALU and parity interfaces: report that as an error, (don't dereference null).
+#if ENABLE_ALU
+static QAluPtr AsAlu(QInterfacePtr qReg)
+{
+    QAluPtr alu = std::dynamic_pointer_cast<QAlu>(qReg);
+    if (!alu) {
+        throw std::invalid_argument("This simulator type does not implement the requested arithmetic operation!");
+    }
+
+    return alu;
+}
+#endif
+
+static QParityPtr AsParity(QInterfacePtr qReg)
+{
+    QParityPtr parity = std::dynamic_pointer_cast<QParity>(qReg);
+    if (!parity) {
+        throw std::invalid_argument("This simulator type does not implement the requested parity operation!");
+    }
+
+    return parity;
+}
+
 qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
 std::mutex metaOperationMutex;
 int metaError = 0;
-- 
2.43.0


From 5b74d03ccce9b4c07d0723839869a09f21b3f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 04/80] fix: contain exceptions raised inside the C API and
 record them

---
 src/pinvoke_api.cpp | 100 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 79 insertions(+), 21 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index c58e640..607d934 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -1339,8 +1339,16 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
-    QInterfacePtr nQubit = CreateQuantumInterface(
-        simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    QInterfacePtr nQubit;
+    try {
+        nQubit = CreateQuantumInterface(
+            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return;
+    }
 
     if (!simulators[sid]) {
         simulators[sid] = nQubit;
@@ -1361,6 +1369,8 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
 
     shards[simulators[sid].get()][qid] = (qubitCount - 1U);
@@ -1388,22 +1398,28 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
         return false;
     }
 
-    // Check that the qubit is in the |0> state, to within a small tolerance.
-    bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
+    bool toRet = false;
+    try {
+        // Check that the qubit is in the |0> state, to within a small tolerance.
+        const bitLenInt oIndex = GetSimShardId(simulator, q);
+        toRet = simulator->Prob(oIndex) < (ONE_R1 / 100);
 
-    if (simulator->GetQubitCount() == 1U) {
-        shards.erase(simulator.get());
-        simulators[sid] = nullptr;
-    } else {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q];
-        simulator->Dispose(oIndex, 1U);
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
+        if (simulator->GetQubitCount() == 1U) {
+            shards.erase(simulator.get());
+            simulators[sid] = nullptr;
+        } else {
+            std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+            simulator->Dispose(oIndex, 1U);
+            for (auto it = simShards.begin(); it != simShards.end(); ++it) {
+                if (it->second > oIndex) {
+                    --(it->second);
+                }
             }
+            simShards.erase(q);
         }
-        simShards.erase(q);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
     }
 
     return toRet;
@@ -2839,7 +2855,14 @@ double UnitaryExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
             _b.emplace_back(b[i3 + j]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2876,7 +2899,14 @@ double MatrixExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
             _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2918,7 +2948,15 @@ double UnitaryExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s*
             _b.emplace_back(b[i3 + j]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e)
+                              : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2962,7 +3000,15 @@ double MatrixExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b
             _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
         }
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    try {
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e)
+                              : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -2994,7 +3040,14 @@ double PauliExpVar(bool isExp, uintq sid, uintq n, uintq* q, uintq* b)
         _q.emplace_back(GetSimShardId(simulator, q[i]));
         _b.emplace_back((Pauli)b[i]);
     }
-    return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+    try {
+        return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
+    }
 }
 
 /**
@@ -3903,7 +3956,12 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
 MICROSOFT_QUANTUM_DECL void qcircuit_run(_In_ uintq cid, _In_ uintq sid)
 {
     CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)
-    circuit->Run(simulator);
+    try {
+        circuit->Run(simulator);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+    }
 }
 
 MICROSOFT_QUANTUM_DECL void qcircuit_out_to_file(_In_ uintq cid, _In_ char* f)
-- 
2.43.0


From a15658319561a24dfc2456db71a7c79a28994cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 05/80] fix: qcircuit_append_mc applied the inverse of the
 control sort permutation

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 607d934..467f44e 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3944,7 +3944,7 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
     bitCapInt _p = ZERO_BCI;
     std::set<bitLenInt> ctrls;
     for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&_p, ((p >> i) & 1U) << indices[i]);
+        bi_or_ip(&_p, ((p >> indices[i]) & 1U) << i);
         ctrls.insert(c[i]);
     }
 
-- 
2.43.0


From 2ab24f3a2bc33d40dd8491de854aca018ae4144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 06/80] fix: combine big integer words with the width of a
 word, not of bitCapInt

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 467f44e..cc0929d 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -614,7 +614,7 @@ bitCapInt _combineA(uintq na, const uintq* a)
 #if QBCAPPOW > 6
     bitCapInt aTot = ZERO_BCI;
     for (uintq i = 0U; i < na; ++i) {
-        bi_lshift_ip(&aTot, bitsInCap);
+        bi_lshift_ip(&aTot, 8U * sizeof(uintq));
         bi_or_ip(&aTot, a[na - (i + 1U)]);
     }
 
-- 
2.43.0


From e385285178892785dc830b7669be95c561656a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 07/80] fix: resolve C API qubit ids through the current id map
 after every positional swap

---
 src/pinvoke_api.cpp | 119 +++++++++++++++++++++++---------------------
 1 file changed, 63 insertions(+), 56 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index cc0929d..cdc46a2 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -460,11 +460,11 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline std::size_t make_mask(std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<bitLenInt> const& qs)
 {
-    std::size_t mask = 0U;
-    for (const std::size_t q : qs) {
-        mask = mask | pow2Ocl(q);
+    bitCapInt mask = ZERO_BCI;
+    for (const bitLenInt q : qs) {
+        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
 }
@@ -491,16 +491,17 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
 uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
 {
     uintq start = GetSimShardId(simulator, q[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray(new bitLenInt[n]);
     for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-        if (start > bitArray[i]) {
-            start = bitArray[i];
+        const bitLenInt bit = GetSimShardId(simulator, q[i]);
+        if (start > bit) {
+            start = bit;
         }
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start + i, bitArray[i]);
-        SwapShardValues(start + i, bitArray[i], shards[simulator.get()]);
+        // (Earlier swaps might have moved this qubit.)
+        const bitLenInt bit = GetSimShardId(simulator, q[i]);
+        simulator->Swap(start + i, bit);
+        SwapShardValues(start + i, bit, shards[simulator.get()]);
     }
     return start;
 }
@@ -520,33 +521,33 @@ MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1,
 {
     uintq start1 = GetSimShardId(simulator, q1[0U]);
     uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n]);
     for (uintq i = 0U; i < n; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
+        const bitLenInt bit1 = GetSimShardId(simulator, q1[i]);
+        if (start1 > bit1) {
+            start1 = bit1;
         }
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
+        const bitLenInt bit2 = GetSimShardId(simulator, q2[i]);
+        if (start2 > bit2) {
+            start2 = bit2;
         }
     }
     bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
-        bitArray1.swap(bitArray2);
+        std::swap(q1, q2);
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        const bitLenInt bit = GetSimShardId(simulator, q1[i]);
+        simulator->Swap(start1 + i, bit);
+        SwapShardValues(start1 + i, bit, shards[simulator.get()]);
     }
     if ((start1 + n) > start2) {
         start2 = start1 + n;
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
+        const bitLenInt bit = GetSimShardId(simulator, q2[i]);
+        simulator->Swap(start2 + i, bit);
+        SwapShardValues(start2 + i, bit, shards[simulator.get()]);
     }
     if (isReversed) {
         std::swap(start1, start2);
@@ -558,36 +559,36 @@ MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1
 {
     uintq start1 = GetSimShardId(simulator, q1[0U]);
     uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n1]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n2]);
     for (uintq i = 0U; i < n1; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
+        const bitLenInt bit1 = GetSimShardId(simulator, q1[i]);
+        if (start1 > bit1) {
+            start1 = bit1;
         }
     }
     for (uintq i = 0U; i < n2; ++i) {
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
+        const bitLenInt bit2 = GetSimShardId(simulator, q2[i]);
+        if (start2 > bit2) {
+            start2 = bit2;
         }
     }
     bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
         std::swap(n1, n2);
-        bitArray1.swap(bitArray2);
+        std::swap(q1, q2);
     }
     for (uintq i = 0U; i < n1; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        const bitLenInt bit = GetSimShardId(simulator, q1[i]);
+        simulator->Swap(start1 + i, bit);
+        SwapShardValues(start1 + i, bit, shards[simulator.get()]);
     }
     if ((start1 + n1) > start2) {
         start2 = start1 + n1;
     }
     for (uintq i = 0U; i < n2; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
+        const bitLenInt bit = GetSimShardId(simulator, q2[i]);
+        simulator->Swap(start2 + i, bit);
+        SwapShardValues(start2 + i, bit, shards[simulator.get()]);
     }
     if (isReversed) {
         std::swap(start1, start2);
@@ -2079,7 +2080,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
         } else {
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2115,11 +2116,14 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
         } else if (bVec.size() == 1U) {
             MCRHelper(sid, bVec.front(), -2. * phi, nc, cs, qVec.front());
         } else {
-            std::vector<bitLenInt> csVec(cs, cs + nc);
+            std::vector<bitLenInt> csVec(nc);
+            for (uintq i = 0U; i < nc; ++i) {
+                csVec[i] = GetSimShardId(simulator, cs[i]);
+            }
 
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2331,6 +2335,8 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid1] = 1;
         simulatorErrors[sid2] = 1;
+
+        return;
     }
     std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
     for (bitLenInt i = 0; i < pQubitCount; ++i) {
@@ -2357,7 +2363,9 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
         nQubitIndex = simulator->GetQubitCount() - n;
 
         for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
+            const bitLenInt bit = GetSimShardId(simulator, q[i]);
+            simulator->Swap(bit, i + nQubitIndex);
+            SwapShardValues(bit, i + nQubitIndex, shards[simulator.get()]);
         }
 
         simulator->Decompose(nQubitIndex, simulators[nSid]);
@@ -2365,6 +2373,8 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
         simulatorErrors[nSid] = 1;
+
+        return nSid;
     }
 
     for (uintq j = 0U; j < n; ++j) {
@@ -2388,12 +2398,16 @@ MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
     try {
         nQubitIndex = simulator->GetQubitCount() - n;
         for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
+            const bitLenInt bit = GetSimShardId(simulator, q[i]);
+            simulator->Swap(bit, i + nQubitIndex);
+            SwapShardValues(bit, i + nQubitIndex, shards[simulator.get()]);
         }
         simulator->Dispose(nQubitIndex, n);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
     for (uintq j = 0U; j < n; ++j) {
         std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
@@ -3445,27 +3459,20 @@ MICROSOFT_QUANTUM_DECL void Separate(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
-
-    const bitLenInt end = simulator->GetQubitCount() - 1U;
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
-
     try {
-        QInterfacePtr partSim = simulator->Decompose(end - n, n);
+        const bitLenInt start = simulator->GetQubitCount() - n;
+        for (uintq i = 0U; i < n; ++i) {
+            const bitLenInt bit = GetSimShardId(simulator, q[i]);
+            simulator->Swap(bit, start + i);
+            SwapShardValues(bit, start + i, shards[simulator.get()]);
+        }
+
+        QInterfacePtr partSim = simulator->Decompose(start, n);
         simulator->Compose(partSim);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL double GetUnitaryFidelity(_In_ uintq sid)
-- 
2.43.0


From 66da90d4372e6c6307699abfe3721371f99aef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 08/80] fix: do not truncate C API qubit ids to the width of a
 qubit index

---
 src/pinvoke_api.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index cdc46a2..8ae62af 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -297,7 +297,7 @@ std::map<QCircuit*, std::mutex> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, bitLenInt i)
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 {
     const auto& simShardsIt = shards.find(simulator.get());
     if (simShardsIt == shards.end()) {
@@ -377,7 +377,7 @@ void RevertPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qub
     }
 }
 
-void removeIdentities(std::vector<int>* b, std::vector<bitLenInt>* qs)
+void removeIdentities(std::vector<int>* b, std::vector<uintq>* qs)
 {
     uintq i = 0U;
     while (i != b->size()) {
@@ -460,10 +460,10 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<uintq> const& qs)
 {
     bitCapInt mask = ZERO_BCI;
-    for (const bitLenInt q : qs) {
+    for (const uintq q : qs) {
         bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
@@ -1270,7 +1270,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
     }
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     removeIdentities(&bVec, &qVec);
     n = (uintq)qVec.size();
@@ -2066,7 +2066,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2104,7 +2104,7 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
-- 
2.43.0


From ef2e6c66056c275809918664951aa2d31a2199bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 09/80] fix: Compose() could deadlock on its own simulator or
 against a reversed Compose()

---
 src/pinvoke_api.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 8ae62af..e1eb60e 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2304,8 +2304,16 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         return;
     }
 
-    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()]);
-    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()]);
+    if (simulators[sid1] == simulators[sid2]) {
+        metaError = 2;
+        std::cout << "Cannot 'Compose()' a simulator with itself!" << std::endl;
+
+        return;
+    }
+
+    std::lock(simulatorMutexes[simulators[sid1].get()], simulatorMutexes[simulators[sid2].get()]);
+    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()], std::adopt_lock);
+    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()], std::adopt_lock);
 
     if (simulatorTypes[sid1].size() != simulatorTypes[sid2].size()) {
         metaError = 2;
-- 
2.43.0


From e92cbf3605e909265f27a5997cce5650bdd2149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 10/80] fix: pass the quantum and the classical input of CLAND
 and its siblings in the declared order

---
 src/pinvoke_api.cpp | 12 ++++++------
 src/wasm_api.cpp    | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index e1eb60e..b1e09a0 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2499,7 +2499,7 @@ MICROSOFT_QUANTUM_DECL void CLAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2510,7 +2510,7 @@ MICROSOFT_QUANTUM_DECL void CLOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _I
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2521,7 +2521,7 @@ MICROSOFT_QUANTUM_DECL void CLXOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2532,7 +2532,7 @@ MICROSOFT_QUANTUM_DECL void CLNAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2543,7 +2543,7 @@ MICROSOFT_QUANTUM_DECL void CLNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2554,7 +2554,7 @@ MICROSOFT_QUANTUM_DECL void CLXNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index 0163901..c21ce2c 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -1704,37 +1704,37 @@ void XNOR(quid sid, bitLenInt qi1, bitLenInt qi2, bitLenInt qo)
 void CLAND(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 void CLOR(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 void CLXOR(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 void CLNAND(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 void CLNOR(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 void CLXNOR(quid sid, bool ci, bitLenInt qi, bitLenInt qo)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+    simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
 }
 
 std::vector<real1> ProbAll(quid sid, std::vector<bitLenInt> q)
-- 
2.43.0


From f4dc8346d192cecf1f914604a05f138c30bc9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 11/80] fix: resolve the qubit ids of TimeEvolve() operators
 through the id map

---
 src/pinvoke_api.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index b1e09a0..0f779ef 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3582,15 +3582,20 @@ MICROSOFT_QUANTUM_DECL void Normalize(_In_ uintq sid)
 MICROSOFT_QUANTUM_DECL void TimeEvolve(_In_ uintq sid, _In_ double t, _In_ uintq n,
     _In_reads_(n) _QrackTimeEvolveOpHeader* teos, uintq mn, _In_reads_(mn) double* mtrx)
 {
+    SIMULATOR_LOCK_GUARD_VOID(sid)
+
     bitCapIntOcl mtrxOffset = 0U;
     Hamiltonian h(n);
     for (uintq i = 0U; i < n; ++i) {
         h[i] = std::make_shared<UniformHamiltonianOp>(teos[i], mtrx + mtrxOffset);
         mtrxOffset += pow2Ocl(teos[i].controlLen) * 8U;
+        // (The header is given in terms of qubit IDs.)
+        h[i]->targetBit = GetSimShardId(simulator, teos[i].target);
+        for (uintq j = 0U; j < teos[i].controlLen; ++j) {
+            h[i]->controls[j] = GetSimShardId(simulator, teos[i].controls[j]);
+        }
     }
 
-    SIMULATOR_LOCK_GUARD_VOID(sid)
-
     try {
         simulator->TimeEvolve(h, (real1_f)t);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 62c6d8d4b0414882cad403ea1e6b069ddd97ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 12/80] fix: a cloned simulator keeps the qubit ids of its
 original

---
 src/pinvoke_api.cpp | 3 ++-
 src/wasm_api.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 0f779ef..d24e689 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -931,7 +931,8 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     }
 
     if (simulator) {
-        FillSimShards(simulator);
+        // (The clone has the same qubit order, under the same qubit IDs.)
+        shards[simulator.get()] = shards[oSimulator.get()];
     }
 
     return nsid;
diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index c21ce2c..244692e 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -716,7 +716,8 @@ quid init_clone(quid sid)
         simulatorHostPointer[nsid] = simulatorHostPointer[sid];
     }
 
-    FillSimShards(simulator);
+    // (The clone has the same qubit order, under the same qubit IDs.)
+    shards[simulator.get()] = shards[oSimulator.get()];
 
     return nsid;
 }
-- 
2.43.0


From 8e78ff8d06bbc5253de86fcfa41e19d8fff74a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 13/80] fix: QInterfaceNoisy resizes its engine only once when
 qubits are added

---
 include/qinterface_noisy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d213da4..d467c15 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -114,19 +114,19 @@ public:
 
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
     {
-        SetQubitCount(qubitCount + length);
+        QInterface::SetQubitCount(qubitCount + length);
         return engine->Allocate(start, length);
     }
     using QInterface::Compose;
     bitLenInt Compose(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
+        QInterface::SetQubitCount(qubitCount + toCopy->qubitCount);
         return engine->Compose(toCopy->engine);
     }
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QInterfaceNoisy>(toCopy)); }
     bitLenInt Compose(QInterfaceNoisyPtr toCopy, bitLenInt start)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
+        QInterface::SetQubitCount(qubitCount + toCopy->qubitCount);
         return engine->Compose(toCopy->engine, start);
     }
     bitLenInt Compose(QInterfacePtr toCopy, bitLenInt start)
@@ -135,7 +135,7 @@ public:
     }
     bitLenInt ComposeNoClone(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
+        QInterface::SetQubitCount(qubitCount + toCopy->qubitCount);
         return engine->ComposeNoClone(toCopy->engine);
     }
     bitLenInt ComposeNoClone(QInterfacePtr toCopy)
-- 
2.43.0


From aa57e2b5894c2ed4341b26bfc5d6e3bc1c56747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 14/80] fix: a clone of a QInterfaceNoisy has the original's
 qubit count, generator and fidelity

---
 include/qinterface_noisy.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d467c15..7fdc4d4 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -80,11 +80,13 @@ public:
         bitLenInt qubitThreshold = 0U, real1_f separation_thresh = _qrack_qunit_sep_thresh);
 
     QInterfaceNoisy(QInterfaceNoisy* o)
-        : noiseParam(o->noiseParam)
-        , engine(o->engine)
+        : QInterface(o->qubitCount, o->rand_generator, o->doNormalize, !!(o->hardware_rand_generator),
+              o->randGlobalPhase, (real1_f)o->amplitudeFloor)
+        , logFidelity(o->logFidelity)
+        , noiseParam(o->noiseParam)
+        , engine(o->engine->Clone())
         , engines(o->engines)
     {
-        engine = o->engine->Clone();
     }
 
     void SetNoiseParameter(real1_f lambda) { noiseParam = lambda; }
-- 
2.43.0


From a11fdd84031a194c247b594495bcb484a0c43382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 15/80] fix: QInterfaceNoisy::Decompose(start, length) returns
 the decomposed qubits and shrinks the original

---
 include/qinterface_noisy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index 7fdc4d4..ccbfe4e 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -151,8 +151,11 @@ public:
     }
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
+        QInterfacePtr part = engine->Decompose(start, length);
         QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(this);
-        engine->Decompose(start, dest->engine);
+        dest->engine = part;
+        dest->QInterface::SetQubitCount(length);
+        SetQubitCount(qubitCount - length);
 
         return dest;
     }
-- 
2.43.0


From efa6cd8d9258fc79558cf428e7f99b7802ad6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 16/80] fix: QBdtHybrid::Decompose(start, length) returns a
 simulator of length qubits

---
 include/qbdthybrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 2f95390..b1587e7 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -209,7 +209,7 @@ public:
         } else {
             e = std::dynamic_pointer_cast<QEngine>(engine->Decompose(start, length));
         }
-        return std::make_shared<QBdtHybrid>(q, e, engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor,
+        return std::make_shared<QBdtHybrid>(q, e, engines, length, ZERO_BCI, rand_generator, phaseFactor,
             doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs,
             thresholdQubits, separabilityThreshold);
     }
-- 
2.43.0


From 0f8914e6e06569234a38140f1c28b704627a19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 17/80] fix: the generic QInterface::ProbReg() reads the
 register it is asked about

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..ff1d512 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -267,7 +267,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | (p << start);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 14778d62a22490769e37bf4a95aef67940c80372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 18/80] fix: QEngine::ForceM(bits, values, doApply) honours
 values for one bit and doApply for several

---
 src/qengine/qengine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..f3865da 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
-- 
2.43.0


From f782eb48975b53905c45c5c9ee428de272f469f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 19/80] fix: QStabilizerHybrid::ForceM() without doApply leaves
 the qubit buffer in place

---
 src/qstabilizerhybrid.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..95c7c0b 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1535,6 +1535,14 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
                 return result;
             }
 
+            if (!doApply) {
+                // Sample the buffered gate, without collapsing it.
+                const real1_f prob =
+                    (real1_f)(stabilizer->M(qubit) ? norm(shard->gate[3U]) : norm(shard->gate[2U]));
+
+                return (prob >= ONE_R1) || ((prob > ZERO_R1) && (Rand() <= prob));
+            }
+
             // Bit was already rotated to Z basis, if separable.
             return CollapseSeparableShard(qubit);
         }
@@ -1544,7 +1552,9 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
         return engine->ForceM(qubit, result, doForce, doApply);
     }
-    shard = nullptr;
+    if (doApply) {
+        shard = nullptr;
+    }
 
     if (stabilizer->IsSeparable(qubit)) {
         return stabilizer->ForceM(qubit, result, doForce, doApply);
-- 
2.43.0


From 8ea297082a6a0fd650c2d80a816c1b79af8fa838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 20/80] fix: QInterface::ForceM(bits) without doApply returns a
 mask of the measured qubits

---
 src/qinterface/qinterface.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index ff1d512..d39bbcf 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -255,7 +255,15 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
     std::vector<bitCapInt> qPowers(bits.size());
     std::transform(bits.begin(), bits.end(), qPowers.begin(), pow2);
 
-    return MultiShotMeasureMask(qPowers, 1).begin()->first;
+    const bitCapInt sample = MultiShotMeasureMask(qPowers, 1).begin()->first;
+    bitCapInt result = ZERO_BCI;
+    for (size_t bit = 0U; bit < bits.size(); ++bit) {
+        if (bi_and_1(sample >> bit)) {
+            bi_or_ip(&result, qPowers[bit]);
+        }
+    }
+
+    return result;
 }
 
 /// Returns probability of permutation of the register
-- 
2.43.0


From 80026ba87083e2491eb4bd51adc152c203540820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 21/80] fix: QStabilizer::ForceM() rejects forcing 1 on a |0>
 eigenstate, as it does every other impossible result

---
 src/qstabilizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..a597710 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1530,6 +1530,10 @@ bool QStabilizer::ForceM(bitLenInt t, bool result, bool doForce, bool doApply)
 
     if (m >= n) {
         // For example, diagonal permutation state is |0>.
+        if (doForce && result) {
+            throw std::invalid_argument("QStabilizer::ForceM() forced a measurement with 0 probability!");
+        }
+
         return false;
     }
 
-- 
2.43.0


From d6c28b5d8ecd24f554b1aedf932c1e2f24a83472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 22/80] fix: QPager starts in the initial permutation it is
 given

---
 src/qpager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..641c36b 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,16 +51,16 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
+    const bitCapInt initState = _initState & (maxQPower - ONE_BCI);
     const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
     bitCapIntOcl pagePerm = basePageMaxQPower;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
+        if ((initStateOcl < pagePerm) && (initStateOcl >= (pagePerm - basePageMaxQPower))) {
             // Init state is in this page.
             qPages.push_back(MakeEngine(baseQubitsPerPage, i));
             qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
         } else {
-            // Init state is in a higher page.
+            // Init state is in another page.
             qPages.push_back(MakeEngine(baseQubitsPerPage, i));
         }
         pagePerm += basePageMaxQPower;
-- 
2.43.0


From 917c6d9f817ce96b5e2e9456841094b3d9571a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 23/80] fix: QInterface::ForceMReg() without doApply samples
 the register jointly

---
 src/qinterface/qinterface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index d39bbcf..72d5176 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -212,6 +212,15 @@ void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& valu
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& result, bool doForce, bool doApply)
 {
+    if (!doForce && !doApply && (length > 1U)) {
+        std::vector<bitLenInt> bits(length);
+        for (bitLenInt bit = 0U; bit < length; ++bit) {
+            bits[bit] = start + bit;
+        }
+
+        return ForceM(bits, std::vector<bool>(), false) >> start;
+    }
+
     bitCapInt res = ZERO_BCI;
     for (bitLenInt bit = 0U; bit < length; ++bit) {
         const bitCapInt power = pow2(bit);
-- 
2.43.0


From e38034dc9e937c9b45438001b80a08604e487f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 24/80] fix: QUnit measurements without doApply keep the
 buffered phase gates

---
 src/qunit.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..8142a42 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1381,12 +1381,8 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         throw std::invalid_argument("QUnit::ForceM target parameter must be within allocated qubit bounds!");
     }
 
-    if (doApply) {
-        RevertBasis1Qb(qubit);
-        RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
-    } else {
-        ToPermBasisMeasure(qubit);
-    }
+    RevertBasis1Qb(qubit);
+    RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
 
     QEngineShard& shard = shards[qubit];
 
@@ -1463,12 +1459,6 @@ bitCapInt QUnit::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& r
         return MAll();
     }
 
-    // This will discard all buffered gates that don't affect Z basis probability,
-    // so it's safe to call ToPermBasis() without performance penalty, afterward.
-    if (!doApply) {
-        ToPermBasisMeasure(start, length);
-    }
-
     return QInterface::ForceMReg(start, length, result, doForce, doApply);
 }
 
-- 
2.43.0


From 5140b4d52b6172a8bf623f09f4e1b39f16046953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 25/80] fix: ExpVarUnitaryAll() restores the state after U()
 basis changes

The inverse of U(theta, phi, lambda) is U(-theta, -lambda, -phi).
---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 72d5176..6caca85 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -540,7 +540,7 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t i3 = 3U * i;
-        U(bits[i], -basisOps[i3], -basisOps[i3 + 1U], -basisOps[i3 + 2U]);
+        U(bits[i], -basisOps[i3], -basisOps[i3 + 2U], -basisOps[i3 + 1U]);
     }
 
     const real1_f toRet =
-- 
2.43.0


From 6908f3133d21249d8419f4c316d55a7a9d61d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 26/80] fix: QPager amplitude pages cover every page they span

GetAmplitudePage() and SetAmplitudePage() never advanced past the first page
or along the caller's buffer.
---
 src/qpager.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 641c36b..7afa4d6 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -294,22 +294,23 @@ QEnginePtr QPager::MakeEngine(bitLenInt length, bitCapIntOcl pageId)
 void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length)
 {
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
+    const bitCapIntOcl end = offset + length;
     bitCapIntOcl perm = 0U;
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
+    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i, perm += pageLength) {
+        if ((perm + pageLength) <= offset) {
             continue;
         }
-        if (perm >= (offset + length)) {
+        if (perm >= end) {
             break;
         }
         const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
+        const bitCapIntOcl partEnd = ((end - perm) < pageLength) ? (end - perm) : pageLength;
+        const bitCapIntOcl bufferOffset = (perm + partOffset) - offset;
         if (cPagePtr) {
-            qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
+            qPages[i]->SetAmplitudePage(cPagePtr + bufferOffset, partOffset, partEnd - partOffset);
         } else {
-            qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+            qPages[i]->GetAmplitudePage(pagePtr + bufferOffset, partOffset, partEnd - partOffset);
         }
-        perm += pageLength;
     }
 }
 
-- 
2.43.0


From 9de0ae3dc871519ba92dd3e20fe7a1e2c6e4d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 27/80] fix: QStabilizerHybrid::GetAmplitude() with several
 buffered qubits

Every combination of the buffered qubits contributes to an amplitude, also
per ancilla permutation; the normalisation uses the ancilla count in effect.
---
 src/qstabilizerhybrid.cpp | 124 ++++++++++++--------------------------
 1 file changed, 37 insertions(+), 87 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 95c7c0b..e49dc37 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -733,6 +733,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return toRet;
     }
 
+    // A buffered gate mixes both values of its qubit, so every combination of the buffered qubits contributes.
     std::vector<bitLenInt> indices;
     std::vector<bitCapInt> perms{ perm };
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
@@ -740,44 +741,16 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
             continue;
         }
         indices.push_back(i);
-        perms.push_back(perm ^ pow2(i));
-    }
-
-    if (!ancillaCount) {
-        std::vector<complex> amps;
-        amps.reserve(perms.size());
-        if (stateMapCache) {
-            for (size_t i = 0U; i < perms.size(); ++i) {
-                amps.push_back(stateMapCache->get(perms[i]));
-            }
-        } else {
-            amps = stabilizer->GetAmplitudes(perms);
-        }
-        complex amp = amps[0U];
-        for (size_t i = 1U; i < amps.size(); ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[2U] * amps[i] + mtrx[3U] * amp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * amps[i];
-            }
-        }
-
-        if (isRounded) {
-            stabilizer = origStabilizer;
-            ancillaCount = origAncillaCount;
-            deadAncillaCount = origDeadAncillaCount;
-            shards = origShards;
+        const size_t permCount = perms.size();
+        for (size_t j = 0U; j < permCount; ++j) {
+            perms.push_back(perms[j] ^ pow2(i));
         }
-
-        return amp;
     }
 
-    const bitLenInt aStride = indices.size() + 1U;
+    const size_t aStride = perms.size();
     const bitCapIntOcl ancillaPow = pow2Ocl(ancillaCount);
     for (bitCapIntOcl i = 1U; i < ancillaPow; ++i) {
-        const bitCapInt ancillaPerm = i << qubitCount;
+        const bitCapInt ancillaPerm = ((bitCapInt)i) << qubitCount;
         for (size_t j = 0U; j < aStride; ++j) {
             perms.push_back(perms[j] | ancillaPerm);
         }
@@ -793,6 +766,33 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         amps = stabilizer->GetAmplitudes(perms);
     }
 
+    for (size_t offset = 0U; offset < amps.size(); offset += aStride) {
+        size_t half = aStride;
+        for (size_t i = indices.size(); i > 0U; --i) {
+            half >>= 1U;
+            const bitLenInt j = indices[i - 1U];
+            const complex* mtrx = shards[j]->gate;
+            for (size_t k = offset; k < (offset + half); ++k) {
+                if (bi_and_1(perm >> j)) {
+                    amps[k] = mtrx[2U] * amps[k + half] + mtrx[3U] * amps[k];
+                } else {
+                    amps[k] = mtrx[0U] * amps[k] + mtrx[1U] * amps[k + half];
+                }
+            }
+        }
+    }
+
+    if (!ancillaCount) {
+        if (isRounded) {
+            stabilizer = origStabilizer;
+            ancillaCount = origAncillaCount;
+            deadAncillaCount = origDeadAncillaCount;
+            shards = origShards;
+        }
+
+        return amps[0U];
+    }
+
     std::vector<QInterfaceEngine> et = engineTypes;
     for (size_t i = 0U; i < et.size(); ++i) {
         const size_t j = et.size() - (i + 1U);
@@ -807,61 +807,9 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         CreateQuantumInterface(et, ancillaCount, ZERO_BCI, rand_generator, ONE_CMPLX, false, false, useHostRam, devID,
             useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold));
 
-#if ENABLE_COMPLEX_X2
-    std::vector<complex2> top;
-    std::vector<complex2> bottom;
-    // For variable scoping, only:
-    if (true) {
-        complex amp = amps[0U];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            top.emplace_back(mtrx[0U], mtrx[1U]);
-            bottom.emplace_back(mtrx[3U], mtrx[2U]);
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom.back();
-            } else {
-                amp2 = amp2 * top.back();
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(0U, amp);
-    }
-    for (bitCapIntOcl a = 1U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom[j];
-            } else {
-                amp2 = amp2 * top[j];
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-    top.clear();
-    bottom.clear();
-#else
     for (bitCapIntOcl a = 0U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            const complex oAmp = amps[i + offset];
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[3U] * amp + mtrx[2U] * oAmp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * oAmp;
-            }
-        }
-        aEngine->SetAmplitude(a, amp);
+        aEngine->SetAmplitude(a, amps[a * aStride]);
     }
-#endif
     amps.clear();
 
     for (bitLenInt i = 0U; i < ancillaCount; ++i) {
@@ -871,6 +819,8 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         }
     }
 
+    const complex toRet = (real1)pow(SQRT2_R1, (real1)ancillaCount) * aEngine->GetAmplitude(ZERO_BCI);
+
     if (isRounded) {
         stabilizer = origStabilizer;
         ancillaCount = origAncillaCount;
@@ -878,7 +828,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         shards = origShards;
     }
 
-    return (real1)pow(SQRT2_R1, (real1)ancillaCount) * aEngine->GetAmplitude(ZERO_BCI);
+    return toRet;
 }
 
 void QStabilizerHybrid::SetQuantumState(const complex* inputState)
-- 
2.43.0


From 84f2f1dec6a2c0dada7c7c98ff11eb6bfb26bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 28/80] fix: QStabilizerHybrid reduced density matrix of one
 qubit

The Y component repeated X, the lower diagonal element repeated the upper one,
and ProbRdm() read an off-diagonal element.
---
 include/qstabilizerhybrid.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..1752d0e 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -157,16 +157,18 @@ protected:
         const real1 z = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
         stabilizer->H(qubit);
         const real1 x = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
-        stabilizer->S(qubit);
-        const real1 y = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
+        stabilizer->H(qubit);
         stabilizer->IS(qubit);
         stabilizer->H(qubit);
+        const real1 y = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
+        stabilizer->H(qubit);
+        stabilizer->S(qubit);
 
         std::unique_ptr<complex[]> dMtrx(new complex[4]);
         dMtrx[0] = (ONE_CMPLX + z) / complex((real1)2, ZERO_R1);
         dMtrx[1] = x / complex((real1)2, ZERO_R1) - I_CMPLX * (y / complex((real1)2, ZERO_R1));
         dMtrx[2] = x / complex((real1)2, ZERO_R1) + I_CMPLX * (y / complex((real1)2, ZERO_R1));
-        dMtrx[3] = (ONE_CMPLX + z) / complex((real1)2, ZERO_R1);
+        dMtrx[3] = (ONE_CMPLX - z) / complex((real1)2, ZERO_R1);
         if (shards[qubit]) {
             const complex adj[4]{ std::conj(shards[qubit]->gate[0]), std::conj(shards[qubit]->gate[2]),
                 std::conj(shards[qubit]->gate[1]), std::conj(shards[qubit]->gate[3]) };
@@ -447,7 +449,7 @@ public:
         complex pMtrx[4];
         mul2x2(dMtrx.get(), pauliZ, pMtrx);
 
-        return (ONE_R1 - std::real(pMtrx[0]) + std::real(pMtrx[1])) / 2;
+        return (ONE_R1 - std::real(pMtrx[0]) - std::real(pMtrx[3])) / 2;
     }
 
     real1_f CProbRdm(bitLenInt control, bitLenInt target)
-- 
2.43.0


From 1f0aabf661ae2204260cb688cf23152436205ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 29/80] fix: QStabilizerHybrid::SetConcurrency() recursed
 without end

---
 include/qstabilizerhybrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 1752d0e..c72bfed 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -433,7 +433,7 @@ public:
     {
         QInterface::SetConcurrency(threadCount);
         if (engine) {
-            SetConcurrency(GetConcurrencyLevel());
+            engine->SetConcurrency(GetConcurrencyLevel());
         }
     }
 
-- 
2.43.0


From 596140c63af875734eb1fcdd90591e948d6c7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 30/80] fix: DispatchQueue::dump() waits for the operation that
 is already running

dump() reported the queue finished while the dispatch thread could still be
executing an operation, so (for example) SetPermutation() raced with a queued gate.
---
 include/common/dispatchqueue.hpp | 12 ++++++++++--
 src/common/dispatchqueue.cpp     | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..1659c70 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -25,6 +25,7 @@
 #include <future>
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace Qrack {
 
@@ -36,6 +37,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isRunning_(false)
     {
         // Intentionally left blank.
     }
@@ -45,10 +47,14 @@ public:
     void dispatch(const DispatchFn& op);
     // finish queue
     void finish();
-    // dump queue
+    // dump queue (and wait for an operation that is already running)
     void dump();
     // check if queue is finished
-    bool isFinished() { return isFinished_; }
+    bool isFinished()
+    {
+        std::lock_guard<std::mutex> lock(lock_);
+        return isFinished_;
+    }
 
     // Deleted operations
     DispatchQueue(const DispatchQueue& rhs) = delete;
@@ -65,6 +71,8 @@ private:
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isRunning_;
+    std::thread::id workerId_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..736e898 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -58,6 +58,17 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
+
+    if (isRunning_) {
+        // The operation in progress still uses its captured state, so it has to end before we return.
+        // (The dispatch thread sets isFinished_, then. If it's the operation itself that dumps the queue, don't wait.)
+        if (workerId_ != std::this_thread::get_id()) {
+            cvFinished_.wait(lock, [this] { return isFinished_ || quit_; });
+        }
+
+        return;
+    }
+
     isFinished_ = true;
     lock.unlock();
     cvFinished_.notify_all();
@@ -87,6 +98,7 @@ void DispatchQueue::dispatch(const DispatchFn& op)
 void DispatchQueue::dispatch_thread_handler(void)
 {
     std::unique_lock<std::mutex> lock(lock_);
+    workerId_ = std::this_thread::get_id();
 
     do {
         // Wait until we have data or a quit signal
@@ -99,6 +111,7 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isRunning_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
@@ -106,6 +119,7 @@ void DispatchQueue::dispatch_thread_handler(void)
         op();
 
         lock.lock();
+        isRunning_ = false;
 
         if (q_.empty()) {
             isFinished_ = true;
-- 
2.43.0


From f2c2c37a90030d5144f4105d6e4ceaf104ae9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 31/80] fix: QEngineCPU waits for queued gates before it
 shares, moves or overwrites amplitudes

DecomposeDispose() of a whole register, Copy(), and a forced ForceMParity() used the
state vector without Finish(), a queued Apply2x2() could free the state vector after
the method returned, and SetAmplitude() read an absent state vector.
---
 include/qengine_cpu.hpp |  2 ++
 src/qengine/state.cpp   | 21 +++++++++++++++++----
 src/qengine/utility.cpp |  4 ++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index e7894ae..bf74cbf 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -44,6 +44,8 @@ protected:
     void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QEngineCPU>(orig)); }
     void Copy(QEngineCPUPtr orig)
     {
+        Dump();
+        orig->Finish();
         QEngine::Copy(std::dynamic_pointer_cast<QEngine>(orig));
         stateVec = orig->stateVec;
     }
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..3cbecd0 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -207,15 +207,15 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
         return;
     }
 
-    if (runningNorm != REAL1_DEFAULT_ARG) {
-        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
-    }
-
     if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
         stateVec->clear();
     }
 
+    if (runningNorm != REAL1_DEFAULT_ARG) {
+        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
+    }
+
     stateVec->write((bitCapIntOcl)perm, amp);
 }
 
@@ -466,6 +466,11 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
                 ZeroAmplitudes();
             }
         });
+
+    if (doCalcNorm) {
+        // The queued work might free the state vector.
+        Finish();
+    }
 }
 #else
 
@@ -638,6 +643,11 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
                 ZeroAmplitudes();
             }
         });
+
+    if (doCalcNorm) {
+        // The queued work might free the state vector.
+        Finish();
+    }
 }
 #endif
 
@@ -1142,7 +1152,9 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
 
     if (!nLength) {
+        Finish();
         if (destination) {
+            destination->Dump();
             destination->stateVec = stateVec;
         }
         stateVec = nullptr;
@@ -1567,6 +1579,7 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     if (!doForce) {
         result = (Rand() <= ProbParity(mask));
     }
+    Finish();
 
     real1 oddChance = ZERO_R1;
 
diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..621ac3c 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -44,6 +44,7 @@ QEnginePtr QEngineCPU::CloneEmpty()
 QInterfacePtr QEngineCPU::Copy()
 {
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
+    Finish();
     clone->stateVec = stateVec;
 
     return clone;
@@ -70,6 +71,9 @@ real1_f QEngineCPU::GetExpectation(bitLenInt valueStart, bitLenInt valueLength)
     const bitCapIntOcl outputMask = bitRegMaskOcl(valueStart, valueLength);
     real1 average = ZERO_R1;
     real1 totProb = ZERO_R1;
+
+    Finish();
+
     for (bitCapIntOcl i = 0U; i < maxQPowerOcl; ++i) {
         bitCapIntOcl outputInt = (i & outputMask) >> valueStart;
         real1 prob = norm(stateVec->read(i));
-- 
2.43.0


From b9b1115f6e6a7acd9752f02ee179fb1806aed1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 32/80] fix: QEngineCPU::SetConcurrency() waits for queued
 gates

A queued gate allocates per-thread buffers for the thread count it reads, and then
runs its loop with the count read by par_for, which could have been raised meanwhile.
---
 include/qengine_cpu.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index bf74cbf..b477a66 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -84,6 +84,13 @@ public:
 
     void SetDevice(int64_t dID) {}
 
+    void SetConcurrency(uint32_t threadsPerEngine)
+    {
+        // Queued gates size their buffers by the number of threads.
+        Finish();
+        QEngine::SetConcurrency(threadsPerEngine);
+    }
+
     real1_f FirstNonzeroPhase()
     {
         if (!stateVec) {
-- 
2.43.0


From d6a4f5b2f330a552f7ac7c8012e7f54768bf5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 33/80] fix: QEngineCPU::DecomposeDispose() sums each angle on
 the thread that owns it

---
 src/qengine/state.cpp | 70 +++++++++++++------------------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 3cbecd0..467592a 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1185,20 +1185,26 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        bitCapIntOcl j = lcv & pow2MaskOcl(start);
+        j |= (lcv ^ j) << length;
+
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            const complex amp = stateVec->read(j | (k << start));
+            const real1 nrm = norm(amp);
+            remainderStateProb[lcv] += nrm;
+            if (nrm > amplitudeFloor) {
+                remainderStateAngle[lcv] += arg(amp) * nrm;
             }
-        });
+        }
+
+        const real1 prob = remainderStateProb[lcv];
+        if (prob > amplitudeFloor) {
+            remainderStateAngle[lcv] /= prob;
+        }
+    });
+
+    if (destination) {
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
             const bitCapIntOcl startMask = pow2MaskOcl(start);
             const bitCapIntOcl j = lcv << start;
@@ -1211,7 +1217,7 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
                 const real1 nrm = norm(amp);
                 partStateProb[lcv] += nrm;
                 if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
+                    partStateAngle[lcv] += arg(amp) * nrm;
                 }
             }
 
@@ -1220,42 +1226,6 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
                 partStateAngle[lcv] /= prob;
             }
         });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
     }
 
     if (destination) {
-- 
2.43.0


From cba5f793c5827f4330cd34d257a7cfaadae92229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 34/80] fix: the software random generator that clones share is
 locked

---
 include/qinterface.hpp  | 10 ++++++++++
 include/qstabilizer.hpp |  9 +--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..086b288 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -18,6 +18,7 @@
 #include "hamiltonian.hpp"
 
 #include <map>
+#include <mutex>
 #include <random>
 
 #if ENABLE_UINT128
@@ -188,6 +189,13 @@ protected:
         XMask(xMask);
     }
 
+    /// Software generators are shared between an instance and its clones, which may run on different threads.
+    static std::mutex& RandGeneratorMutex()
+    {
+        static std::mutex randGeneratorMutex;
+        return randGeneratorMutex;
+    }
+
     virtual bitCapInt SampleClone(const std::vector<bitCapInt>& qPowers)
     {
         QInterfacePtr clone = Clone();
@@ -261,6 +269,7 @@ public:
     void SetRandomSeed(uint32_t seed)
     {
         if (!!rand_generator) {
+            std::lock_guard<std::mutex> lock(RandGeneratorMutex());
             rand_generator->seed(seed);
         }
     }
@@ -288,6 +297,7 @@ public:
         if (!!hardware_rand_generator) {
             return hardware_rand_generator->Next();
         } else {
+            std::lock_guard<std::mutex> lock(RandGeneratorMutex());
             return rand_distribution(*rand_generator);
         }
     }
diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..23e6a62 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -117,13 +117,6 @@ public:
 
     void SetPermutation(const bitCapInt& perm, const complex& phaseFac = CMPLX_DEFAULT_ARG);
 
-    void SetRandomSeed(uint32_t seed)
-    {
-        if (!!rand_generator) {
-            rand_generator->seed(seed);
-        }
-    }
-
     void SetDevice(int64_t dID) {}
 
     bool Rand()
@@ -137,7 +130,7 @@ public:
 
             return (bool)((rawRandBools >> rawRandBoolsRemaining) & 1U);
         } else {
-            return (rand_distribution(*rand_generator) >= HALF_R1_F);
+            return (QInterface::Rand() >= HALF_R1_F);
         }
     }
 
-- 
2.43.0


From 60996ac8fa755753379ec9d97a2bff10fa1853ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 35/80] fix: QStabilizerHybrid checks qubit indices before it
 reads its gate buffers

---
 include/qstabilizerhybrid.hpp | 15 +++++++-
 src/qstabilizerhybrid.cpp     | 64 +++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index c72bfed..f9aff3c 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -153,6 +153,11 @@ protected:
 
     std::unique_ptr<complex[]> GetQubitReducedDensityMatrix(bitLenInt qubit)
     {
+        if (qubit >= shards.size()) {
+            throw std::invalid_argument("QStabilizerHybrid::GetQubitReducedDensityMatrix qubit index parameter must be "
+                                        "within allocated qubit bounds!");
+        }
+
         // Form the reduced density matrix of the single qubit.
         const real1 z = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
         stabilizer->H(qubit);
@@ -479,7 +484,15 @@ public:
 
     bool isClifford() { return !engine; }
 
-    bool isClifford(bitLenInt qubit) { return !engine && !shards[qubit]; };
+    bool isClifford(bitLenInt qubit)
+    {
+        if (qubit >= shards.size()) {
+            throw std::invalid_argument(
+                "QStabilizerHybrid::isClifford qubit index parameter must be within allocated qubit bounds!");
+        }
+
+        return !engine && !shards[qubit];
+    };
 
     bool isBinaryDecisionTree() { return engine && engine->isBinaryDecisionTree(); };
 
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index e49dc37..c609f6a 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -282,6 +282,9 @@ void QStabilizerHybrid::FlushBuffers()
 
 bool QStabilizerHybrid::TrimControls(const std::vector<bitLenInt>& lControls, std::vector<bitLenInt>& output, bool anti)
 {
+    ThrowIfQbIdArrayIsBad(lControls, shards.size(),
+        "QStabilizerHybrid control qubit indices must be unique and within allocated qubit bounds!");
+
     if (engine) {
         output.insert(output.begin(), lControls.begin(), lControls.end());
 
@@ -542,6 +545,10 @@ bitLenInt QStabilizerHybrid::ComposeEither(QStabilizerHybridPtr toCopy, bool wil
 
 bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt start)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QStabilizerHybrid::Compose start index is out-of-bounds!");
+    }
+
     if (start == qubitCount) {
         return Compose(toCopy);
     }
@@ -603,6 +610,10 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 {
     const bitLenInt length = dest->qubitCount;
 
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Decompose range is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
@@ -629,6 +640,10 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 
 void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Dispose range is out-of-bounds!");
+    }
+
     const bitLenInt nQubits = qubitCount - length;
 
     if (engine) {
@@ -643,6 +658,10 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 
 void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizerHybrid::Dispose range is out-of-bounds!");
+    }
+
     const bitLenInt nQubits = qubitCount - length;
 
     if (engine) {
@@ -890,6 +909,11 @@ void QStabilizerHybrid::SetPermutation(const bitCapInt& perm, const complex& pha
 
 void QStabilizerHybrid::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= shards.size()) || (qubit2 >= shards.size())) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::Swap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1043,6 +1067,11 @@ void QStabilizerHybrid::ZMask(const bitCapInt& _mask)
 
 void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
 {
+    if (target >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::Mtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     MpsShardPtr shard = shards[target];
     shards[target] = nullptr;
     const bool wasCached = (bool)shard;
@@ -1149,6 +1178,11 @@ void QStabilizerHybrid::MCMtrx(const std::vector<bitLenInt>& lControls, const co
 void QStabilizerHybrid::MCPhase(
     const std::vector<bitLenInt>& lControls, const complex& topLeft, const complex& bottomRight, bitLenInt target)
 {
+    if (target >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::MCPhase qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IS_NORM_0(topLeft - ONE_CMPLX) && IS_NORM_0(bottomRight - ONE_CMPLX)) {
         return;
     }
@@ -1203,6 +1237,11 @@ void QStabilizerHybrid::MCPhase(
 void QStabilizerHybrid::MCInvert(
     const std::vector<bitLenInt>& lControls, const complex& topRight, const complex& bottomLeft, bitLenInt target)
 {
+    if (target >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::MCInvert qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (engine) {
         return engine->MCInvert(lControls, topRight, bottomLeft, target);
     }
@@ -1275,6 +1314,11 @@ void QStabilizerHybrid::MACMtrx(const std::vector<bitLenInt>& lControls, const c
 void QStabilizerHybrid::MACPhase(
     const std::vector<bitLenInt>& lControls, const complex& topLeft, const complex& bottomRight, bitLenInt target)
 {
+    if (target >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::MACPhase qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (engine) {
         return engine->MACPhase(lControls, topLeft, bottomRight, target);
     }
@@ -1325,6 +1369,11 @@ void QStabilizerHybrid::MACPhase(
 void QStabilizerHybrid::MACInvert(
     const std::vector<bitLenInt>& lControls, const complex& topRight, const complex& bottomLeft, bitLenInt target)
 {
+    if (target >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::MACInvert qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (engine) {
         return engine->MACInvert(lControls, topRight, bottomLeft, target);
     }
@@ -1372,6 +1421,11 @@ void QStabilizerHybrid::MACInvert(
 
 real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 {
+    if (qubit >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::Prob qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (ancillaCount && !(stabilizer->IsSeparable(qubit))) {
         if (qubitCount <= maxEngineQubitCount) {
             QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
@@ -1460,6 +1514,11 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 
 bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
+    if (qubit >= shards.size()) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::ForceM qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (engine) {
         return engine->ForceM(qubit, result, doForce, doApply);
     }
@@ -2028,6 +2087,11 @@ real1_f QStabilizerHybrid::ApproxCompareHelper(QStabilizerHybridPtr toCompare, b
 
 void QStabilizerHybrid::ISwapHelper(bitLenInt qubit1, bitLenInt qubit2, bool inverse)
 {
+    if ((qubit1 >= shards.size()) || (qubit2 >= shards.size())) {
+        throw std::invalid_argument(
+            "QStabilizerHybrid::ISwapHelper qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
-- 
2.43.0


From c86cf9469a089a282f887772517fa2555d7c199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 36/80] fix: QPager checks qubit indices before it selects
 pages

---
 src/qpager.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 7afa4d6..45c82f3 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -369,6 +369,11 @@ void QPager::SeparateEngines(bitLenInt thresholdBits, bool noBaseFloor)
 
 template <typename Qubit1Fn> void QPager::SingleBitGate(bitLenInt target, Qubit1Fn fn, bool isSqiCtrl, bool isAnti)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::SingleBitGate qubit index parameter must be within allocated qubit bounds!");
+    }
+
     bitLenInt qpp = qubitsPerPage();
 
     if (doNormalize) {
@@ -950,6 +955,11 @@ void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 
 void QPager::ApplySingleEither(bool isInvert, const complex& _top, const complex& _bottom, bitLenInt target)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::ApplySingleEither qubit index parameter must be within allocated qubit bounds!");
+    }
+
     bitLenInt qpp = qubitsPerPage();
 
     if (target < qpp) {
@@ -995,6 +1005,14 @@ void QPager::ApplySingleEither(bool isInvert, const complex& _top, const complex
 void QPager::ApplyEitherControlledSingleBit(
     const bitCapInt& controlPerm, const std::vector<bitLenInt>& controls, bitLenInt target, const complex* mtrx)
 {
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QPager control qubit indices must be unique and within allocated qubit bounds!");
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::ApplyEitherControlledSingleBit qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (controls.empty()) {
         return Mtrx(mtrx, target);
     }
@@ -1335,6 +1353,10 @@ void QPager::MetaSwap(bitLenInt qubit1, bitLenInt qubit2, bool isIPhaseFac, bool
 
 void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::Swap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1360,6 +1382,11 @@ void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QPager::EitherISwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1449,6 +1476,10 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
 real1_f QPager::Prob(bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QPager::Prob qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qPages.size() == 1U) {
         return qPages[0U]->Prob(qubit);
     }
-- 
2.43.0


From d54ad8adbd6e7774d208bc9299d270c396604ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 37/80] fix: QUnit checks qubit indices before it reads shards,
 and array shots measure the requested qubits

---
 include/qunit.hpp | 15 +++++++++++++-
 src/qunit.cpp     | 50 +++++++++++++++++++----------------------------
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..be06881 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -140,6 +140,11 @@ public:
 
     virtual real1_f ProbRdm(bitLenInt qubit)
     {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument(
+                "QUnit::ProbRdm qubit index parameter must be within allocated qubit bounds!");
+        }
+
         const QEngineShard& shard = shards[qubit];
         if (!shard.unit) {
             return Prob(qubit);
@@ -506,7 +511,15 @@ public:
         }
     }
     using QInterface::isClifford;
-    virtual bool isClifford(bitLenInt qubit) { return shards[qubit].isClifford(); };
+    virtual bool isClifford(bitLenInt qubit)
+    {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument(
+                "QUnit::isClifford qubit index parameter must be within allocated qubit bounds!");
+        }
+
+        return shards[qubit].isClifford();
+    };
 
     using QInterface::TrySeparate;
     virtual bool TrySeparate(bitLenInt qubit);
diff --git a/src/qunit.cpp b/src/qunit.cpp
index 8142a42..70c098d 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1701,37 +1701,27 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     if (qPowers.size() != shards.size()) {
         ToPermBasisProb();
 
-        QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
-        if (unit) {
-            std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
+        QInterfacePtr unit = nullptr;
+        std::vector<bitCapInt> mappedIndices(qPowers.size());
+        for (size_t i = 0U; i < qPowers.size(); ++i) {
+            const bitLenInt qubit = log2(qPowers[i]);
+            if (qubit >= qubitCount) {
+                throw std::invalid_argument("QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
+                                            "allocated qubit bounds!");
             }
-            for (size_t i = 1U; i < qPowers.size(); ++i) {
-                const size_t qubit = log2(qPowers[i]);
-                if (qubit >= qubitCount) {
-                    throw std::invalid_argument(
-                        "QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
-                        "allocated qubit bounds!");
-                }
-                if (unit != shards[qubit].unit) {
-                    unit = nullptr;
-                    break;
-                }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+            const QEngineShard& shard = shards[qubit];
+            if (!i) {
+                unit = shard.unit;
             }
-
-            if (unit) {
-                return unit->MultiShotMeasureMask(mappedIndices, shots, shotsArray);
+            if (!unit || (unit != shard.unit)) {
+                unit = nullptr;
+                break;
             }
+            mappedIndices[i] = pow2(shard.mapped);
+        }
+
+        if (unit) {
+            return unit->MultiShotMeasureMask(mappedIndices, shots, shotsArray);
         }
     }
 
@@ -2409,8 +2399,6 @@ void QUnit::UCInvert(const std::vector<bitLenInt>& lControls, const complex& top
 
 void QUnit::Mtrx(const complex* mtrx, bitLenInt target)
 {
-    QEngineShard& shard = shards[target];
-
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return Phase(mtrx[0U], mtrx[3U], target);
     }
@@ -2436,6 +2424,8 @@ void QUnit::Mtrx(const complex* mtrx, bitLenInt target)
         throw std::invalid_argument("QUnit::Mtrx qubit index parameter must be within allocated qubit bounds!");
     }
 
+    QEngineShard& shard = shards[target];
+
     RevertBasis2Qb(target);
 
     complex trnsMtrx[4U];
-- 
2.43.0


From b3fce1074a65d6b8151f2c95c852d4dba341d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 38/80] fix: QUnitClifford checks qubit indices before it reads
 shards

---
 src/qunitclifford.cpp | 55 +++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..9207327 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -152,6 +152,10 @@ real1_f QUnitClifford::ProbPermRdm(const bitCapInt& perm, bitLenInt ancillaeStar
 
 real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QUnitClifford::ProbMask mask out-of-bounds!");
+    }
+
     bitCapInt v = mask; // count the number of bits set in v
     std::vector<bitLenInt> bits;
     while (bi_compare_0(v) != 0) {
@@ -706,37 +710,27 @@ void QUnitClifford::MultiShotMeasureMask(
     }
 
     if (qPowers.size() != shards.size()) {
-        QStabilizerPtr unit = shards[log2(qPowers[0U])].unit;
-        if (unit) {
-            std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (bi_compare(qPowers[0U], pow2(j)) == 0) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
+        QStabilizerPtr unit = nullptr;
+        std::vector<bitCapInt> mappedIndices(qPowers.size());
+        for (size_t i = 0U; i < qPowers.size(); ++i) {
+            const bitLenInt qubit = log2(qPowers[i]);
+            if (qubit >= qubitCount) {
+                throw std::invalid_argument("QUnitClifford::MultiShotMeasureMask parameter qPowers array values must be "
+                                            "within allocated qubit bounds!");
             }
-            for (size_t i = 1U; i < qPowers.size(); ++i) {
-                const size_t qubit = log2(qPowers[i]);
-                if (qubit >= qubitCount) {
-                    throw std::invalid_argument(
-                        "QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
-                        "allocated qubit bounds!");
-                }
-                if (unit != shards[qubit].unit) {
-                    unit = nullptr;
-                    break;
-                }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (bi_compare(qPowers[i], pow2(j)) == 0) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+            const CliffordShard& shard = shards[qubit];
+            if (!i) {
+                unit = shard.unit;
             }
-
-            if (unit) {
-                return unit->MultiShotMeasureMask(mappedIndices, shots, shotsArray);
+            if (!unit || (unit != shard.unit)) {
+                unit = nullptr;
+                break;
             }
+            mappedIndices[i] = pow2(shard.mapped);
+        }
+
+        if (unit) {
+            return unit->MultiShotMeasureMask(mappedIndices, shots, shotsArray);
         }
     }
 
@@ -810,6 +804,11 @@ real1_f QUnitClifford::SumSqrDiff(QUnitCliffordPtr toCompare)
 
 bool QUnitClifford::TrySeparate(bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument(
+            "QUnitClifford::TrySeparate qubit index parameter must be within allocated qubit bounds!");
+    }
+
     CliffordShard& shard = shards[qubit];
 
     if (shard.unit->GetQubitCount() <= 1U) {
-- 
2.43.0


From e9ddad2bed6c94df3fe289a07dd912bda6c61ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 39/80] fix: QEngineCPU checks permutations, moduli and ranges
 before it indexes amplitudes

---
 src/qengine/arithmetic.cpp |  8 ++++++++
 src/qengine/state.cpp      | 22 ++++++++++++++++++++--
 src/qengine/utility.cpp    |  4 ++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..4d5780d 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -547,6 +547,10 @@ void QEngineCPU::ModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLe
         throw std::invalid_argument("QEngineCPU::ModNOut range is out-of-bounds!");
     }
 
+    if (modN > pow2(length)) {
+        throw std::invalid_argument("QEngineCPU::ModNOut modulus is too large for the output register!");
+    }
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
@@ -622,6 +626,10 @@ void QEngineCPU::CModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitL
         throw std::invalid_argument("QEngineCPU::ModNOut range is out-of-bounds!");
     }
 
+    if (modN > pow2(length)) {
+        throw std::invalid_argument("QEngineCPU::ModNOut modulus is too large for the output register!");
+    }
+
     ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::ModNOut control is out-of-bounds!");
 
     CHECK_ZERO_SKIP();
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 467592a..862ebad 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -221,6 +221,8 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
 
 void QEngineCPU::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
 {
+    const bitCapIntOcl permOcl = (bitCapIntOcl)perm & (maxQPowerOcl - 1U);
+
     Dump();
 
     if (!stateVec) {
@@ -237,10 +239,10 @@ void QEngineCPU::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
         } else {
             phase = ONE_CMPLX;
         }
-        stateVec->write((bitCapIntOcl)perm, phase);
+        stateVec->write(permOcl, phase);
     } else {
         real1 nrm = abs(phaseFac);
-        stateVec->write((bitCapIntOcl)perm, phaseFac / nrm);
+        stateVec->write(permOcl, phaseFac / nrm);
     }
 
     runningNorm = ONE_R1;
@@ -1265,6 +1267,10 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         throw std::invalid_argument("QEngineCPU::Dispose range is out-of-bounds!");
     }
 
+    if (disposedPerm >= pow2(length)) {
+        throw std::invalid_argument("QEngineCPU::Dispose permutation is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
@@ -1412,6 +1418,14 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
 // Returns probability of permutation of the register
 real1_f QEngineCPU::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg range is out-of-bounds!");
+    }
+
+    if (permutation >= pow2(length)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg permutation is out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
@@ -1443,6 +1457,10 @@ real1_f QEngineCPU::ProbMask(const bitCapInt& mask, const bitCapInt& permutation
         throw std::invalid_argument("QEngineCPU::ProbMask mask out-of-bounds!");
     }
 
+    if (permutation >= maxQPower) {
+        throw std::invalid_argument("QEngineCPU::ProbMask permutation out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index 621ac3c..2b4fb17 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -68,6 +68,10 @@ bitLenInt QEngineCPU::Allocate(bitLenInt start, bitLenInt length)
 
 real1_f QEngineCPU::GetExpectation(bitLenInt valueStart, bitLenInt valueLength)
 {
+    if (isBadBitRange(valueStart, valueLength, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::GetExpectation range is out-of-bounds!");
+    }
+
     const bitCapIntOcl outputMask = bitRegMaskOcl(valueStart, valueLength);
     real1 average = ZERO_R1;
     real1 totProb = ZERO_R1;
-- 
2.43.0


From 1eb62bfa40424a5e7126a47e4b33fb000722abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 40/80] fix: QStabilizer::GetQubitAmplitude() checks its qubit
 index

---
 src/qstabilizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index a597710..5035f15 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -591,6 +591,11 @@ AmplitudeEntry QStabilizer::GetAnyAmplitude()
 
 AmplitudeEntry QStabilizer::GetQubitAmplitude(bitLenInt t, bool m)
 {
+    if (t >= qubitCount) {
+        throw std::invalid_argument(
+            "QStabilizer::GetQubitAmplitude qubit index parameter must be within allocated qubit bounds!");
+    }
+
     const bitCapInt tPow = pow2(t);
     const bitCapInt mPow = m ? tPow : ZERO_BCI;
 
-- 
2.43.0


From d7adcf05bcfa66605b8f94f40e224f79951d56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 41/80] fix: QStabilizerHybrid::CSwap() swaps the buffered
 gates together with the qubits

---
 src/qstabilizerhybrid.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index c609f6a..19c9ee7 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -939,9 +939,7 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
         }
 
         if (controls.empty()) {
-            rdmClone = nullptr;
-
-            return stabilizer->Swap(qubit1, qubit2);
+            return Swap(qubit1, qubit2);
         }
 
         SwitchToEngine();
-- 
2.43.0


From 64bd59b7d6e726b0b063203033bba3e8afee95d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 42/80] fix: QUnit::ProbRdm() asks the sub-unit for its own
 index of the qubit

---
 include/qunit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index be06881..09cbf66 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -150,7 +150,7 @@ public:
             return Prob(qubit);
         }
 
-        return shard.unit->ProbRdm(qubit);
+        return shard.unit->ProbRdm(shard.mapped);
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
-- 
2.43.0


From db8289eaa9b8d247b7f9836671b098db02d3a0d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 43/80] fix: QUnitClifford controlled gates apply the payload
 to the mapped target

---
 include/qunitclifford.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..f138974 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,12 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
             }
             return;
         }
-- 
2.43.0


From b82bf496bc8ebb54fbba75e15535c4c7dea254e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 44/80] fix: QUnitClifford::FSim() uses mapped qubit indices

---
 include/qunitclifford.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index f138974..e6bc2c7 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -782,7 +782,7 @@ public:
         std::vector<bitLenInt> bits{ c, t };
         std::vector<bitLenInt*> ebits{ &bits[0U], &bits[1U] };
         QStabilizerPtr unit = EntangleInCurrentBasis(ebits.begin(), ebits.end());
-        unit->FSim(theta, phi, c, t);
+        unit->FSim(theta, phi, bits[0U], bits[1U]);
         CombinePhaseOffsets(unit);
         TrySeparate(c);
         TrySeparate(t);
-- 
2.43.0


From e4653c70d6f95f1387dd5f34e1969ff6b0755d52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 45/80] fix: QUnit::CUniformParityRZ() maps controls and
 targets after entangling them

---
 src/qunit.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 70c098d..cf225d7 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1291,7 +1291,9 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         shards[eIndex].isPhaseDirty = true;
     }
 
-    QInterfacePtr unit = Entangle(eIndices);
+    std::vector<bitLenInt> allBits(controls);
+    allBits.insert(allBits.end(), eIndices.begin(), eIndices.end());
+    QInterfacePtr unit = Entangle(allBits);
 
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
@@ -1301,14 +1303,6 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
-
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
             QEngineShard& cShard = shards[controls[i]];
-- 
2.43.0


From b2578b3bea5d3a5c4d0960a1cab3d584c5aafdf1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 46/80] fix: QUnit::SeparateBit() checks the probability of the
 separated qubit

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index cf225d7..5cdc9cb 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1337,7 +1337,7 @@ bool QUnit::SeparateBit(bool value, bitLenInt qubit)
         return true;
     }
 
-    const real1_f prob = HALF_R1_F - unit->Prob(shard.mapped);
+    const real1_f prob = HALF_R1_F - unit->Prob(mapped);
     unit->Dispose(mapped, 1U, value ? ONE_BCI : ZERO_BCI);
 
     if (!unit->isBinaryDecisionTree() && ((HALF_R1 - abs(prob)) > FP_NORM_EPSILON)) {
-- 
2.43.0


From ad3b633379c777f6ddc61b15c85c792e6bd62acc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 47/80] fix: QUnit classical shadow of a controlled gate uses
 register indices

---
 src/qunit.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 5cdc9cb..24cc625 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2658,10 +2658,12 @@ void QUnit::ApplyEitherControlled(
     try {
         unit = EntangleInCurrentBasis(ebits.begin(), ebits.end());
 
-        for (bitLenInt& c : controlVec) {
+        std::vector<bitLenInt> controlsMapped;
+        controlsMapped.reserve(controlVec.size());
+        for (const bitLenInt& c : controlVec) {
             QEngineShard& shard = shards[c];
             shard.isPhaseDirty = true;
-            c = shard.mapped;
+            controlsMapped.push_back(shard.mapped);
         }
         for (const bitLenInt& t : targets) {
             QEngineShard& shard = shards[t];
@@ -2671,13 +2673,19 @@ void QUnit::ApplyEitherControlled(
 
         // This is the original method with the maximum number of non-entangled controls excised, (potentially leaving a
         // target bit in X or Y basis and acting as if Z basis by commutation).
-        cfn(unit, controlVec);
+        cfn(unit, controlsMapped);
     } catch (const bad_alloc& e) {
         // We overallocated; use a really primitive classical shadow, at least.
         if (freezeBasis2Qb) {
             throw e;
         }
 
+        // (This might separate qubits, so it comes before we look up the target unit.)
+        real1_f p = ONE_R1_F;
+        for (const bitLenInt& c : controlVec) {
+            p *= Prob(c);
+        }
+
         if (targets.size() == 1U) {
             const bitLenInt& t = targets[0];
             EndEmulation(t);
@@ -2688,11 +2696,6 @@ void QUnit::ApplyEitherControlled(
             unit = Entangle(targets);
         }
 
-        real1_f p = ONE_R1_F;
-        for (const bitLenInt& c : controlVec) {
-            p *= Prob(c);
-        }
-
         QEngineShard& shard = shards[targets[0]];
         shard.isPhaseDirty = true;
         shard.isProbDirty |= (shard.pauliBasis != PauliZ) || !isPhase;
-- 
2.43.0


From d15b1ea7815a7169b8a31150438f8047da1ce284 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 48/80] fix: QUnit::INT() does not reuse rewritten qubit
 indices in the next round

---
 src/qunit.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 24cc625..6cb716f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2925,11 +2925,6 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     std::copy(controls.begin(), controls.end(), allBits.begin());
     std::sort(allBits.begin(), allBits.begin() + controlLen);
 
-    std::vector<bitLenInt*> ebits(allBits.size());
-    for (size_t i = 0; i < ebits.size(); ++i) {
-        ebits[i] = &allBits[i];
-    }
-
     // Try ripple addition, to avoid entanglement.
     const bitLenInt origLength = length;
     bool carry = false;
@@ -3010,7 +3005,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 if (controlLen) {
                     allBits[controlLen] = start;
                     DirtyShardIndexVector(allBits);
-                    QInterfacePtr unit = Entangle(ebits);
+                    QInterfacePtr unit = Entangle(allBits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3060,7 +3055,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         if (controlLen) {
             allBits[controlLen] = start;
             DirtyShardIndexVector(allBits);
-            QInterfacePtr unit = Entangle(ebits);
+            QInterfacePtr unit = Entangle(allBits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
-- 
2.43.0


From 9caf6aa10eb08b6f926f7676becb7f528375706f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 49/80] fix: QUnit::TrySeparate() looks up mapped indices after
 reverting the basis

---
 src/qunit.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 6cb716f..aaedb06 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -772,12 +772,8 @@ bool QUnit::TrySeparate(bitLenInt qubit1, bitLenInt qubit2)
         return isShard1Sep && isShard2Sep;
     }
 
-    const QInterfacePtr unit = shard1.unit;
-    const bitLenInt mapped1 = shard1.mapped;
-    const bitLenInt mapped2 = shard2.mapped;
-
     // Both shards are in the same unit.
-    if (unit->isClifford() && !unit->TrySeparate(mapped1, mapped2)) {
+    if (shard1.unit->isClifford() && !shard1.unit->TrySeparate(shard1.mapped, shard2.mapped)) {
         return false;
     }
 
@@ -791,6 +787,17 @@ bool QUnit::TrySeparate(bitLenInt qubit1, bitLenInt qubit2)
     RevertBasis1Qb(qubit1);
     RevertBasis1Qb(qubit2);
 
+    if (!shard1.unit || (shard1.unit != shard2.unit)) {
+        // Reverting the basis separated a shard.
+        const bool isShard1Sep = TrySeparate(qubit1);
+        const bool isShard2Sep = TrySeparate(qubit2);
+        return isShard1Sep && isShard2Sep;
+    }
+
+    const QInterfacePtr unit = shard1.unit;
+    const bitLenInt mapped1 = shard1.mapped;
+    const bitLenInt mapped2 = shard2.mapped;
+
     // "Controlled inverse state preparation"
     QRACK_CONST complex mtrx[4U]{ complex(SQRT1_2_R1, ZERO_R1), complex(ZERO_R1, -SQRT1_2_R1),
         complex(SQRT1_2_R1, ZERO_R1), complex(ZERO_R1, SQRT1_2_R1) };
-- 
2.43.0


From 3e4bd28cdda134554a901ad7e75f127773d4188e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 50/80] fix: QUnit::ProbParity() looks up mapped indices after
 reverting bases

---
 src/qunit.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index aaedb06..217c031 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1126,6 +1126,13 @@ real1_f QUnit::ProbParity(const bitCapInt& mask)
         }
     }
 
+    // Reverting a basis might separate qubits, so do it before looking up any mapped index.
+    for (const bitLenInt& qIndex : qIndices) {
+        if (shards[qIndex].unit) {
+            RevertBasis1Qb(qIndex);
+        }
+    }
+
     std::map<QInterfacePtr, bitCapInt> units;
     real1 oddChance = ZERO_R1;
     real1 nOddChance;
@@ -1137,8 +1144,6 @@ real1_f QUnit::ProbParity(const bitCapInt& mask)
             continue;
         }
 
-        RevertBasis1Qb(qIndex);
-
         bi_or_ip(&(units[shard.unit]), pow2(shard.mapped));
     }
 
-- 
2.43.0


From 6449eebfd0ae8ab2778d9a7ee5a969d2855b2040 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 51/80] fix: loading a QStabilizerHybrid counts the ancillae it
 drops

---
 src/qstabilizerhybrid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 19c9ee7..7a33993 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -2245,6 +2245,7 @@ std::istream& operator>>(std::istream& is, const QStabilizerHybridPtr s)
         if (s->stabilizer->TrySeparate(i)) {
             s->stabilizer->Dispose(i, 1U);
             shards.erase(shards.begin() + i);
+            --(s->ancillaCount);
         }
     }
 
-- 
2.43.0


From 9fd7dbc127c5d356ca9cbe2f7cf6b6c845ef878a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 52/80] fix: saving a QStabilizerHybrid writes one buffer per
 tableau qubit

---
 src/qstabilizerhybrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 7a33993..3da2e33 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -2205,8 +2205,10 @@ std::ostream& operator<<(std::ostream& os, const QStabilizerHybridPtr s)
 
     const complex id[4]{ ONE_CMPLX, ZERO_CMPLX, ZERO_CMPLX, ONE_CMPLX };
     const std::vector<MpsShardPtr>& shards = s->shards;
-    for (size_t i = 0U; i < shards.size(); ++i) {
-        const complex* mtrx = !shards[i] ? id : shards[i]->gate;
+    // ("Dead" ancillae have no buffers.)
+    const size_t tableauCount = (size_t)s->stabilizer->GetQubitCount();
+    for (size_t i = 0U; i < tableauCount; ++i) {
+        const complex* mtrx = ((i >= shards.size()) || !shards[i]) ? id : shards[i]->gate;
         for (size_t j = 0U; j < 3U; ++j) {
             os << mtrx[j] << " ";
         }
-- 
2.43.0


From e731df474161cd05b8f71e2b04695ab0a593a4cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 53/80] fix: loading a QCircuitGate replaces its controls

---
 src/qcircuit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 65c619a..1bbf484 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -38,6 +38,7 @@ std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g)
 std::istream& operator>>(std::istream& is, QCircuitGatePtr& g)
 {
     g->payloads.clear();
+    g->controls.clear();
 
     size_t target;
     is >> target;
-- 
2.43.0


From b57bad031a34fd8079d71872855233881127e06c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 54/80] fix: printing a non-zero bitCapInt ends

---
 src/common/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..9bb5c26 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -287,7 +287,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
-- 
2.43.0


From 278881607a6f8f8bf6a660460fe70e0faa866227 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 55/80] fix: saving a QCircuitGate writes all bits of its
 permutation keys

---
 src/qcircuit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 1bbf484..0b7962f 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -25,7 +25,7 @@ std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g)
 
     os << g->payloads.size() << " ";
     for (const auto& p : g->payloads) {
-        os << (size_t)p.first << " ";
+        os << p.first << " ";
         const complex* mtrx = p.second.get();
         for (size_t i = 0U; i < 4U; ++i) {
             os << mtrx[i] << " ";
-- 
2.43.0


From 8d9a6ac754fe24e2bd9d6d667caec7ee432b6521 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 56/80] fix: QInterface has the IPhaseRootN() its register form
 applies (ENABLE_REG_GATES)

---
 include/qinterface.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 086b288..6882a08 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -1071,6 +1071,16 @@ public:
         Phase(ONE_CMPLX, pow(-ONE_CMPLX, (real1)(ONE_R1 / pow2Ocl(n - 1U))), qubit);
     }
 
+    /** Apply inverse 1/(2^N) phase rotation, for "N" as "n" */
+    virtual void IPhaseRootN(bitLenInt n, bitLenInt qubit)
+    {
+        if (n == 0) {
+            return;
+        }
+
+        Phase(ONE_CMPLX, pow(-ONE_CMPLX, (real1)(-ONE_R1 / pow2Ocl(n - 1U))), qubit);
+    }
+
     /**
      * Masked PhaseRootN gate
      *
-- 
2.43.0


From feef33047d2c8f05359ddbfabfe3aa608a2e1e68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 57/80] fix: CRT() and CRX() compile with ENABLE_ROT_API

---
 src/qinterface/rotational.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qinterface/rotational.cpp b/src/qinterface/rotational.cpp
index aa06e12..3f971d7 100644
--- a/src/qinterface/rotational.cpp
+++ b/src/qinterface/rotational.cpp
@@ -268,8 +268,8 @@ void QInterface::ExpZ(real1_f radians, bitLenInt qubit)
 /// Controlled "phase shift gate" - if control bit is true, rotates target bit as e^(-i*\theta/2) around |1> state
 void QInterface::CRT(real1_f radians, bitLenInt control, bitLenInt target)
 {
-    const bitLenInt controls[1]{ control };
-    MCPhase(controls, 1, ONE_CMPLX, complex((real1)cos(radians / 2), (real1)sin(radians / 2)), target);
+    const std::vector<bitLenInt> controls{ control };
+    MCPhase(controls, ONE_CMPLX, complex((real1)cos(radians / 2), (real1)sin(radians / 2)), target);
 }
 
 /// Controlled x axis rotation - if control bit is true, rotates as e^(-i*\theta/2) around Pauli x axis
@@ -279,8 +279,8 @@ void QInterface::CRX(real1_f radians, bitLenInt control, bitLenInt target)
     const real1 sine = (real1)sin(radians / 2);
     const complex pauliRX[4]{ complex(cosine, ZERO_R1), complex(ZERO_R1, sine), complex(ZERO_R1, sine),
         complex(cosine, ZERO_R1) };
-    const bitLenInt controls[1]{ control };
-    MCMtrx(controls, 1, pauliRX, target);
+    const std::vector<bitLenInt> controls{ control };
+    MCMtrx(controls, pauliRX, target);
 }
 #endif
 } // namespace Qrack
-- 
2.43.0


From 0be04d3c7650206268e001b573e0f06c026c5d4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 58/80] fix: BCD arithmetic compiles again (ENABLE_BCD)

---
 include/qbdthybrid.hpp     |  5 +++++
 src/qalu.cpp               | 13 ++++++++-----
 src/qengine/arithmetic.cpp | 32 +++++++++++++++++---------------
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index b1587e7..04fa902 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -661,6 +661,11 @@ public:
         SwitchMode(false);
         engine->DECBCDC(toSub, start, length, carryIndex);
     }
+    void INCDECBCDC(const bitCapInt& toMod, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
+    {
+        SwitchMode(false);
+        engine->INCDECBCDC(toMod, start, length, carryIndex);
+    }
 #endif
     void MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
     {
diff --git a/src/qalu.cpp b/src/qalu.cpp
index 0f825a3..c249a4e 100644
--- a/src/qalu.cpp
+++ b/src/qalu.cpp
@@ -156,28 +156,31 @@ void QAlu::DECBCD(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length
 /// Add BCD integer (without sign, with carry)
 void QAlu::INCBCDC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
+    bitCapInt _toAdd = toAdd;
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
         X(carryIndex);
-        bi_increment(&toAdd, 1U);
+        bi_increment(&_toAdd, 1U);
     }
 
-    INCDECBCDC(toAdd, inOutStart, length, carryIndex);
+    INCDECBCDC(_toAdd, inOutStart, length, carryIndex);
 }
 
 /// Subtract BCD integer (without sign, with carry)
 void QAlu::DECBCDC(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
+    bitCapInt _toSub = toSub;
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
         X(carryIndex);
     } else {
-        bi_increment(&toSub, 1U);
+        bi_increment(&_toSub, 1U);
     }
 
     const bitCapInt maxVal = intPow(10U, length / 4U);
-    toSub %= maxVal;
-    bitCapInt invToSub = maxVal - toSub;
+    bitCapInt remainder;
+    bi_div_mod(_toSub, maxVal, NULL, &remainder);
+    bitCapInt invToSub = maxVal - remainder;
     INCDECBCDC(invToSub, inOutStart, length, carryIndex);
 }
 #endif
diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 4d5780d..94f2c8b 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -743,16 +743,17 @@ void QEngineCPU::INCBCD(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt
         throw std::invalid_argument("BCD word bit length must be a multiple of 4.");
     }
 
-    bitCapIntOcl maxPow = intPowOcl(10U, nibbleCount);
-    toAdd %= maxPow;
+    bitCapInt remainder;
+    bi_div_mod(toAdd, (bitCapInt)intPowOcl(10U, nibbleCount), NULL, &remainder);
 
-    if (!toAdd) {
+    const bitCapIntOcl toAddOcl = (bitCapIntOcl)remainder;
+
+    if (!toAddOcl) {
         return;
     }
 
-    const bitCapIntOcl toAddOcl = (bitCapIntOcl)toAdd;
     const bitCapIntOcl inOutMask = bitRegMaskOcl(inOutStart, length);
-    const bitCapIntOcl otherMask = (maxQPowerOcl - ONE_BCI) ^ inOutMask;
+    const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) ^ inOutMask;
 
     Finish();
 
@@ -784,7 +785,7 @@ void QEngineCPU::INCBCD(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt
                         ++(nibbles[j + 1]);
                     }
                 }
-                outInt |= (bitCapIntOcl)nibbles[j] << (j * 4U * ONE_BCI);
+                outInt |= (bitCapIntOcl)nibbles[j] << (j * 4U);
             }
             nStateVec->write((outInt << inOutStart) | otherRes, stateVec->read(lcv));
         } else {
@@ -817,24 +818,25 @@ void QEngineCPU::INCDECBCDC(const bitCapInt& toMod, bitLenInt inOutStart, bitLen
         throw std::invalid_argument("BCD word bit length must be a multiple of 4.");
     }
 
-    const bitCapIntOcl maxPow = intPowOcl(10U, nibbleCount);
-    toMod %= maxPow;
+    bitCapInt remainder;
+    bi_div_mod(toMod, (bitCapInt)intPowOcl(10U, nibbleCount), NULL, &remainder);
+
+    const bitCapIntOcl toModOcl = (bitCapIntOcl)remainder;
 
-    if (!toMod) {
+    if (!toModOcl) {
         return;
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
     const bitCapIntOcl inOutMask = bitRegMaskOcl(inOutStart, length);
     const bitCapIntOcl carryMask = pow2Ocl(carryIndex);
-    const bitCapIntOcl otherMask = (maxQPowerOcl - ONE_BCI) ^ (inOutMask | carryMask);
+    const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) ^ (inOutMask | carryMask);
 
     Finish();
 
     StateVectorPtr nStateVec = AllocStateVec(maxQPowerOcl);
     nStateVec->clear();
 
-    par_for_skip(0, maxQPowerOcl, pow2Ocl(carryIndex), ONE_BCI, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, pow2Ocl(carryIndex), 1U, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         const bitCapIntOcl otherRes = lcv & otherMask;
         bitCapIntOcl partToAdd = toModOcl;
         bitCapIntOcl inOutInt = (lcv & inOutMask) >> inOutStart;
@@ -843,7 +845,7 @@ void QEngineCPU::INCDECBCDC(const bitCapInt& toMod, bitLenInt inOutStart, bitLen
         bool isValid = true;
 
         test1 = (int)(inOutInt & 15UL);
-        inOutInt >>= 4U * ONE_BCI;
+        inOutInt >>= 4U;
         test2 = (int)(partToAdd % 10);
         partToAdd /= 10;
         nibbles[0] = test1 + test2;
@@ -853,7 +855,7 @@ void QEngineCPU::INCDECBCDC(const bitCapInt& toMod, bitLenInt inOutStart, bitLen
 
         for (bitLenInt j = 1; j < nibbleCount; ++j) {
             test1 = (int)(inOutInt & 15UL);
-            inOutInt >>= 4U * ONE_BCI;
+            inOutInt >>= 4U;
             test2 = (int)(partToAdd % 10);
             partToAdd /= 10;
             nibbles[j] = test1 + test2;
@@ -874,7 +876,7 @@ void QEngineCPU::INCDECBCDC(const bitCapInt& toMod, bitLenInt inOutStart, bitLen
                         carryRes = carryMask;
                     }
                 }
-                outInt |= (bitCapIntOcl)nibbles[j] << (j * 4U * ONE_BCI);
+                outInt |= (bitCapIntOcl)nibbles[j] << (j * 4U);
             }
             outRes = (outInt << inOutStart) | otherRes | carryRes;
             nStateVec->write(outRes, stateVec->read(lcv));
-- 
2.43.0


From 991bba2e87ff5af14f0f6014fd85df61ceb0bbe9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 59/80] fix: QUnit compiles with FPPOW=7

---
 src/qunit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 217c031..4ae29a2 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -147,7 +147,7 @@ void QUnit::SetQuantumState(const complex* inputState)
 {
     Dump();
 
-    logFidelity = ZERO_R1;
+    logFidelity = 0.0;
 
     if (qubitCount == 1U) {
         QEngineShard& shard = shards[0U];
@@ -1801,9 +1801,9 @@ void QUnit::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 
             if ((2 * pHi) > ONE_R1_F) {
                 Z(t);
-                logFidelity += log(pHi);
+                logFidelity += (double)log(pHi);
             } else {
-                logFidelity += log(ONE_R1_F - pLo);
+                logFidelity += (double)log(ONE_R1_F - pLo);
             }
 
             if (isInverse) {
@@ -2715,9 +2715,9 @@ void QUnit::ApplyEitherControlled(
         // Act the classical shadow of the gate payload.
         if ((2 * p) > ONE_R1_F) {
             cfn(unit, {});
-            logFidelity += log(p);
+            logFidelity += (double)log(p);
         } else {
-            logFidelity += log(ONE_R1_F - p);
+            logFidelity += (double)log(ONE_R1_F - p);
         }
 
         return CheckFidelity();
@@ -3964,7 +3964,7 @@ void QUnit::ApplyBuffer(PhaseShardPtr phaseShard, bitLenInt control, bitLenInt t
             pLo = ptHi ? pc : pth;
             pState = abs(pHi - HALF_R1) >= abs(pLo - HALF_R1);
 
-            logFidelity += log(pState ? pHi : (ONE_R1_F - pLo));
+            logFidelity += (double)log(pState ? pHi : (ONE_R1_F - pLo));
             CheckFidelity();
 
             if (pState) {
-- 
2.43.0


From b7367cbc4d0a28911cd7fcd490277836c5580875 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 60/80] fix: WASM unitary and matrix expectation values read
 each entry's own basis

---
 src/wasm_api.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index 244692e..bf6c128 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -1982,9 +1982,8 @@ real1_f UnitaryExpVar(bool isExp, quid sid, std::vector<QubitU3Basis> q)
     for (size_t i = 0U; i < n; ++i) {
         const QubitU3Basis& qub = q[i];
         _q.emplace_back(GetSimShardId(simulator, qub.qid));
-        const size_t i3 = 3U * i;
         for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(qub.b[i3 + j]);
+            _b.emplace_back(qub.b[j]);
         }
     }
 
@@ -2013,10 +2012,9 @@ real1_f MatrixExpVar(bool isExp, quid sid, std::vector<QubitMatrixBasis> q)
     for (size_t i = 0U; i < n; ++i) {
         const QubitMatrixBasis& qmb = q[i];
         _q.emplace_back(GetSimShardId(simulator, qmb.qid));
-        const size_t i4 = i << 2U;
         _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
         for (size_t j = 0U; j < 4U; ++j) {
-            _b[i].get()[j] = qmb.b[i4 + j];
+            _b[i].get()[j] = qmb.b[j];
         }
     }
 
@@ -2047,9 +2045,8 @@ real1_f UnitaryExpVarEigenVal(bool isExp, quid sid, std::vector<QubitU3BasisEige
     for (size_t i = 0U; i < n; ++i) {
         const QubitU3BasisEigenVal& qubev = q[i];
         _q.emplace_back(GetSimShardId(simulator, qubev.qid));
-        const size_t i3 = 3U * i;
         for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(qubev.b[i3 + j]);
+            _b.emplace_back(qubev.b[j]);
         }
         _e.emplace_back(qubev.e[0U]);
         _e.emplace_back(qubev.e[1U]);
@@ -2088,10 +2085,9 @@ real1_f MatrixExpVarEigenVal(bool isExp, quid sid, std::vector<QubitMatrixBasisE
     for (size_t i = 0U; i < n; ++i) {
         const QubitMatrixBasisEigenVal& qmbev = q[i];
         _q.emplace_back(GetSimShardId(simulator, qmbev.qid));
-        const size_t i4 = i << 2U;
         _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
         for (size_t j = 0U; j < 4U; ++j) {
-            _b[i].get()[j] = qmbev.b[i4 + j];
+            _b[i].get()[j] = qmbev.b[j];
         }
         _e.emplace_back(qmbev.e[0U]);
         _e.emplace_back(qmbev.e[1U]);
-- 
2.43.0


From a33040a8f8de49f97de0c238ce710f450a9e0a8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 61/80] fix: WASM MatrixVarianceEigenVal() returns the variance

---
 src/wasm_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index bf6c128..5ecaffd 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -2093,7 +2093,7 @@ real1_f MatrixExpVarEigenVal(bool isExp, quid sid, std::vector<QubitMatrixBasisE
         _e.emplace_back(qmbev.e[1U]);
     }
 
-    return simulator->ExpectationUnitaryAll(_q, _b, _e);
+    return isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e);
 }
 
 /**
-- 
2.43.0


From 0bbad05f58f08622420a5bf6c5c10e5e3f845f2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 62/80] fix: WASM expectation values compile with FPPOW=4

---
 src/wasm_api.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wasm_api.cpp b/src/wasm_api.cpp
index 5ecaffd..f84abdb 100644
--- a/src/wasm_api.cpp
+++ b/src/wasm_api.cpp
@@ -1975,7 +1975,7 @@ real1_f UnitaryExpVar(bool isExp, quid sid, std::vector<QubitU3Basis> q)
     SIMULATOR_LOCK_GUARD_REAL1_F(sid)
 
     std::vector<bitLenInt> _q;
-    std::vector<real1> _b;
+    std::vector<real1_f> _b;
     const size_t n = q.size();
     _q.reserve(n);
     _b.reserve(3U * n);
@@ -2036,8 +2036,8 @@ real1_f UnitaryExpVarEigenVal(bool isExp, quid sid, std::vector<QubitU3BasisEige
     SIMULATOR_LOCK_GUARD_REAL1_F(sid)
 
     std::vector<bitLenInt> _q;
-    std::vector<real1> _b;
-    std::vector<real1> _e;
+    std::vector<real1_f> _b;
+    std::vector<real1_f> _e;
     const size_t n = q.size();
     _q.reserve(n);
     _b.reserve(3U * n);
@@ -2077,7 +2077,7 @@ real1_f MatrixExpVarEigenVal(bool isExp, quid sid, std::vector<QubitMatrixBasisE
 
     std::vector<bitLenInt> _q;
     std::vector<std::shared_ptr<complex>> _b;
-    std::vector<real1> _e;
+    std::vector<real1_f> _e;
     const size_t n = q.size();
     _q.reserve(n);
     _b.reserve(n);
-- 
2.43.0


From 3fd476cd23973d7221f924320c358a9f59fb3a06 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:31:01 +0000
Subject: [PATCH 63/80] fix: QUnit starts with a defined rounding threshold

---
 src/qunit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 4ae29a2..eafec63 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -88,6 +88,7 @@ QUnit::QUnit(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCa
     , isSinglePage(false)
     , thresholdQubits(qubitThreshold)
     , separabilityThreshold(sep_thresh)
+    , roundingThreshold(FP_NORM_EPSILON_F)
     , logFidelity(0.0)
     , devID(deviceID)
     , phaseFactor(phaseFac)
-- 
2.43.0


From 21630a550189e40d22b040e80cad872eef633d58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 64/80] fix: both QPager constructors initialise every option

---
 src/qpager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 45c82f3..ce696fc 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -35,6 +35,7 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
     bool useHardwareRNG, bool useSparseStateVec, real1_f norm_thresh, std::vector<int64_t> devList,
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
+    , useGpuThreshold(false)
     , isSparse(useSparseStateVec)
     , useTGadget(true)
     , maxPageSetting(-1)
@@ -72,7 +73,9 @@ QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenIn
     bool useHardwareRNG, bool useSparseStateVec, real1_f norm_thresh, std::vector<int64_t> devList,
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
+    , useGpuThreshold(false)
     , isSparse(useSparseStateVec)
+    , useTGadget(true)
     , maxPageSetting(-1)
     , maxPageQubits(-1)
     , thresholdQubitsPerPage(qubitThreshold)
-- 
2.43.0


From 82bcbd2775475333a23a921218bbfa7e1fb89ddb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 65/80] fix: QNeuron::Predict() with an unknown activation
 function acts like Sigmoid

---
 include/qneuron.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 02cde40..6916d0a 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -190,6 +190,7 @@ public:
                 break;
             case Sigmoid:
             default:
+                std::copy(angles.get(), angles.get() + inputPower, nAngles.get());
                 break;
             }
             qReg->UniformlyControlledRY(inputIndices, outputIndex, nAngles.get());
-- 
2.43.0


From 90b52553ffbd6db1523d1159f99e34e3a5c3b48d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 66/80] fix: measuring several qubits stays inside the
 probability table and never picks an impossible outcome

---
 src/qengine/qengine.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index f3865da..1c06738 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -167,16 +167,15 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     bitCapIntOcl lcv = 0U;
     real1 lowerProb = probArray[0U];
-    bitCapIntOcl result = lengthPower - 1U;
+    bitCapIntOcl result = 0U;
 
     /*
      * The value of 'lcv' should not exceed lengthPower unless the stateVec is
      * in a bug-induced topology - some value in stateVec must always be a
      * vector.
      */
-    real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
-        ++lcv;
+    real1 nrmlzr = lowerProb;
+    while ((lowerProb <= prob) && ((++lcv) < lengthPower)) {
         lowerProb += probArray[lcv];
         if (probArray[lcv] > ZERO_R1) {
             nrmlzr = probArray[lcv];
@@ -519,7 +518,7 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
          * in a bug-induced topology - some value in stateVec must always be a
          * vector.
          */
-        while ((lowerProb < prob) && (lcv < lengthPower)) {
+        while ((lowerProb <= prob) && (lcv < lengthPower)) {
             lowerProb += (real1_f)probArray[lcv];
             if (probArray[lcv] > ZERO_R1) {
                 nrmlzr = probArray[lcv];
-- 
2.43.0


From d0334136709838cdcbe7179ef22282776ed5a2b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 67/80] fix: a cloned QStabilizerHybrid keeps its options, its
 fidelity and its device list

---
 src/qstabilizerhybrid.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 3da2e33..1df4a99 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -369,7 +369,15 @@ QInterfacePtr QStabilizerHybrid::CloneBody(bool isCopy)
 {
     QStabilizerHybridPtr c = std::make_shared<QStabilizerHybrid>(cloneEngineTypes, qubitCount, ZERO_BCI, rand_generator,
         phaseFactor, doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, false, (real1_f)amplitudeFloor,
-        std::vector<int64_t>{}, thresholdQubits, separabilityThreshold);
+        deviceIDs, thresholdQubits, separabilityThreshold);
+    c->useTGadget = useTGadget;
+    c->isRoundingFlushed = isRoundingFlushed;
+    c->roundingThreshold = roundingThreshold;
+    c->maxEngineQubitCount = maxEngineQubitCount;
+    c->maxAncillaCount = maxAncillaCount;
+    c->origMaxAncillaCount = origMaxAncillaCount;
+    c->maxStateMapCacheQubitCount = maxStateMapCacheQubitCount;
+    c->logFidelity = logFidelity;
 
     if (engine) {
         // Clone and set engine directly.
-- 
2.43.0


From 937f7f4f3a753d6dc46d4f79c39c8b6ba8ad4d24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 68/80] fix: a cloned QPager keeps its phase factor, host
 memory, device and gadget options

---
 src/qpager.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index ce696fc..a5935e0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1636,9 +1636,10 @@ void QPager::NormalizeState(real1_f nrm, real1_f norm_thresh, real1_f phaseArg)
 QInterfacePtr QPager::Clone()
 {
     SeparateEngines();
-    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
+        randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->useTGadget = useTGadget;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Clone());
     }
@@ -1648,9 +1649,10 @@ QInterfacePtr QPager::Clone()
 QEnginePtr QPager::CloneEmpty()
 {
     SeparateEngines();
-    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
+        randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->useTGadget = useTGadget;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = qPages[i]->CloneEmpty();
     }
@@ -1660,9 +1662,10 @@ QEnginePtr QPager::CloneEmpty()
 QInterfacePtr QPager::Copy()
 {
     SeparateEngines();
-    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
+        randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->useTGadget = useTGadget;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
     }
-- 
2.43.0


From b54933de2f03fd4a2012e39a0252161490dc0cb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 69/80] fix: a cloned QBdt keeps its devices

---
 src/qbdt/tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..45af099 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -149,7 +149,7 @@ void QBdt::SetPermutation(const bitCapInt& initState, const complex& _phaseFac)
 QInterfacePtr QBdt::Clone()
 {
     QBdtPtr c = std::make_shared<QBdt>(engines, 0U, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize, randGlobalPhase,
-        false, -1, !hardware_rand_generator ? false : true, false, (real1_f)amplitudeFloor);
+        false, devID, !hardware_rand_generator ? false : true, false, (real1_f)amplitudeFloor, deviceIDs);
 
     c->root = root ? root->ShallowClone() : nullptr;
     c->SetQubitCount(qubitCount);
-- 
2.43.0


From 5a062bf774a3ad1357bc47bcbc96e0f55be7496d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 70/80] fix: a cloned QTensorNetwork keeps its separability
 threshold

---
 src/qtensornetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index 119840f..bf2dc12 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -207,7 +207,7 @@ QInterfacePtr QTensorNetwork::Clone()
 {
     QTensorNetworkPtr clone = std::make_shared<QTensorNetwork>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX,
         doNormalize, randGlobalPhase, useHostRam, devID, !!hardware_rand_generator, isSparse, (real1_f)amplitudeFloor,
-        deviceIDs);
+        deviceIDs, 0U, separabilityThreshold);
 
     clone->circuit.clear();
     for (size_t i = 0U; i < circuit.size(); ++i) {
-- 
2.43.0


From 068a13608e2202d250ab599c7b8fd0deb7ea5f19 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 71/80] fix: Copy() of an engine keeps its running norm

---
 include/qhybrid.hpp     | 1 +
 src/qengine/utility.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/qhybrid.hpp b/include/qhybrid.hpp
index bb655df..45ba977 100644
--- a/include/qhybrid.hpp
+++ b/include/qhybrid.hpp
@@ -563,6 +563,7 @@ public:
     QInterfacePtr Copy()
     {
         QHybridPtr c = std::dynamic_pointer_cast<QHybrid>(CloneEmpty());
+        c->runningNorm = runningNorm;
         c->engine = std::dynamic_pointer_cast<QEngine>(engine->Copy());
         return c;
     }
diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index 2b4fb17..b4387a3 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -45,6 +45,7 @@ QInterfacePtr QEngineCPU::Copy()
 {
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
     Finish();
+    clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
 
     return clone;
-- 
2.43.0


From 4628d208c3ffe175702a486eab4a4b9616500236 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 72/80] fix: assigning a QNeuron with another number of inputs

---
 include/qneuron.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 6916d0a..d420a0f 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -106,7 +106,10 @@ public:
     {
         qReg = toCopy.qReg;
         inputIndices = toCopy.inputIndices;
-        std::copy(toCopy.angles.get(), toCopy.angles.get() + toCopy.inputPower, angles.get());
+        std::unique_ptr<real1[]> nAngles(new real1[toCopy.inputPower]);
+        std::copy(toCopy.angles.get(), toCopy.angles.get() + toCopy.inputPower, nAngles.get());
+        inputPower = toCopy.inputPower;
+        angles = std::move(nAngles);
         outputIndex = toCopy.outputIndex;
         activationFn = toCopy.activationFn;
         alpha = toCopy.alpha;
-- 
2.43.0


From 37061b1006a3540322601a9a4aa0895c0174c346 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 73/80] fix: replacing a QStabilizerHybrid takes over its
 ancilla limit and its rounded clone

Copy(orig) left origMaxAncillaCount and rdmClone as they were, so a later
reduced density matrix query could answer for the state before the call.
---
 include/qstabilizerhybrid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index f9aff3c..ef677cd 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -371,6 +371,7 @@ protected:
         deadAncillaCount = orig->deadAncillaCount;
         maxEngineQubitCount = orig->maxEngineQubitCount;
         maxAncillaCount = orig->maxAncillaCount;
+        origMaxAncillaCount = orig->origMaxAncillaCount;
         maxStateMapCacheQubitCount = orig->maxStateMapCacheQubitCount;
         separabilityThreshold = orig->separabilityThreshold;
         roundingThreshold = orig->roundingThreshold;
@@ -383,6 +384,7 @@ protected:
         engineTypes = orig->engineTypes;
         cloneEngineTypes = orig->cloneEngineTypes;
         shards = orig->shards;
+        rdmClone = orig->rdmClone;
         stateMapCache = orig->stateMapCache;
     }
 
-- 
2.43.0


From 3fb4c46fda1ec2a80173ba9a0e2c67d72170a314 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 74/80] fix: a cloned QPager keeps its normalisation flag and
 running norm

---
 src/qpager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index a5935e0..316ce39 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1640,6 +1640,8 @@ QInterfacePtr QPager::Clone()
         randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
     clone->useTGadget = useTGadget;
+    clone->doNormalize = doNormalize;
+    clone->runningNorm = runningNorm;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Clone());
     }
@@ -1653,6 +1655,8 @@ QEnginePtr QPager::CloneEmpty()
         randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
     clone->useTGadget = useTGadget;
+    clone->doNormalize = doNormalize;
+    clone->runningNorm = runningNorm;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = qPages[i]->CloneEmpty();
     }
@@ -1666,6 +1670,8 @@ QInterfacePtr QPager::Copy()
         randGlobalPhase, useHostRam, devID, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
     clone->useTGadget = useTGadget;
+    clone->doNormalize = doNormalize;
+    clone->runningNorm = runningNorm;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
     }
-- 
2.43.0


From a3c25a9045bfd8c6eee60b011b7abfbf326e3013 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 75/80] fix: QPager::Decompose(start, length) splits off length
 qubits

It made a destination as wide as the whole register.
---
 src/qpager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 316ce39..4c47bed 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -721,7 +721,7 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
 
     Decompose(start, dest);
-- 
2.43.0


From e18cb844c343ee09ba33b93c3eb1714f4830cb64 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 76/80] fix: combining shots of separate units picks each of
 them with its own frequency

---
 src/qunit.cpp         | 2 +-
 src/qunitclifford.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index eafec63..f95d6ad 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1620,7 +1620,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 9207327..957d064 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -683,7 +683,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From 27f0027804079904a8789c19c0e13ec0b8193baf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 77/80] fix: QTensorNetwork hands its separability threshold to
 the simulator it builds

---
 src/qtensornetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index bf2dc12..3c5049b 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -163,7 +163,8 @@ void QTensorNetwork::MakeLayerStack(std::set<bitLenInt> qubits)
 
     // We need to prepare the layer stack (and cache it).
     layerStack = CreateQuantumInterface(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, useHostRam, devID, !!hardware_rand_generator, isSparse, (real1_f)amplitudeFloor, deviceIDs);
+        randGlobalPhase, useHostRam, devID, !!hardware_rand_generator, isSparse, (real1_f)amplitudeFloor, deviceIDs, 0U,
+        separabilityThreshold);
     layerStack->SetReactiveSeparate(isReactiveSeparate);
     layerStack->SetTInjection(useTGadget);
 
-- 
2.43.0


From c03d580f54833a986c64d9f0400500da7874ae32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 78/80] fix: QInterfaceNoisy hands the simulation settings to
 the simulator it wraps

---
 include/qinterface_noisy.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index ccbfe4e..9f2488e 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -109,6 +109,13 @@ public:
         engine->SetConcurrency(GetConcurrencyLevel());
     }
 
+    void SetSdrp(real1_f sdrp) { engine->SetSdrp(sdrp); }
+    void SetNcrp(real1_f ncrp) { engine->SetNcrp(ncrp); }
+    void SetReactiveSeparate(bool isAggSep) { engine->SetReactiveSeparate(isAggSep); }
+    bool GetReactiveSeparate() { return engine->GetReactiveSeparate(); }
+    void SetTInjection(bool useGadget) { engine->SetTInjection(useGadget); }
+    bool GetTInjection() { return engine->GetTInjection(); }
+
     real1_f ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
     {
         return engine->ProbReg(start, length, permutation);
-- 
2.43.0


From 5e76c90a86045d39d250b83cfeb1430c356466a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 79/80] fix: QTensorNetwork hands changed settings to the
 simulator it has already built

---
 include/qtensornetwork.hpp | 30 +++++++++++++++++++++++++++++-
 src/qtensornetwork.cpp     |  5 +++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/qtensornetwork.hpp b/include/qtensornetwork.hpp
index 8319c72..1348dad 100644
--- a/include/qtensornetwork.hpp
+++ b/include/qtensornetwork.hpp
@@ -41,6 +41,7 @@ protected:
 #endif
     int64_t devID;
     real1_f separabilityThreshold;
+    real1_f roundingThreshold;
     complex globalPhase;
     QInterfacePtr layerStack;
     std::vector<int64_t> deviceIDs;
@@ -157,9 +158,36 @@ public:
     {
         separabilityThreshold = sdrp;
         isReactiveSeparate = (separabilityThreshold > FP_NORM_EPSILON_F);
+        if (layerStack) {
+            layerStack->SetSdrp(sdrp);
+        }
+    }
+
+    void SetNcrp(real1_f ncrp)
+    {
+        roundingThreshold = ncrp;
+        if (layerStack) {
+            layerStack->SetNcrp(ncrp);
+        }
+    }
+
+    void SetReactiveSeparate(bool isAggSep)
+    {
+        isReactiveSeparate = isAggSep;
+        if (layerStack) {
+            layerStack->SetReactiveSeparate(isAggSep);
+        }
     }
+    bool GetReactiveSeparate() { return isReactiveSeparate; }
 
-    void SetReactiveSeparate(bool isAggSep) { isReactiveSeparate = isAggSep; }
+    void SetTInjection(bool useGadget)
+    {
+        useTGadget = useGadget;
+        if (layerStack) {
+            layerStack->SetTInjection(useGadget);
+        }
+    }
+    bool GetTInjection() { return useTGadget; }
 
     double GetUnitaryFidelity()
     {
diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index 3c5049b..d35b615 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -49,6 +49,7 @@ QTensorNetwork::QTensorNetwork(std::vector<QInterfaceEngine> eng, bitLenInt qBit
 #endif
     , devID(deviceId)
     , separabilityThreshold(sep_thresh)
+    , roundingThreshold(ZERO_R1_F)
     , globalPhase(phaseFac)
     , deviceIDs(devList)
     , engines(eng)
@@ -167,6 +168,9 @@ void QTensorNetwork::MakeLayerStack(std::set<bitLenInt> qubits)
         separabilityThreshold);
     layerStack->SetReactiveSeparate(isReactiveSeparate);
     layerStack->SetTInjection(useTGadget);
+    if (roundingThreshold > ZERO_R1_F) {
+        layerStack->SetNcrp(roundingThreshold);
+    }
 
     std::vector<QCircuitPtr> c;
     if (qubits.size()) {
@@ -221,6 +225,7 @@ QInterfacePtr QTensorNetwork::Clone()
 
     clone->SetReactiveSeparate(isReactiveSeparate);
     clone->SetTInjection(useTGadget);
+    clone->roundingThreshold = roundingThreshold;
 
     return clone;
 }
-- 
2.43.0


From 71a1086f2ee1b82b35fcbfb02d3bf1fe7fbed594 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 80/80] fix: qubits split off keep the gadget, rounding and
 separation settings

---
 include/qunit.hpp         | 3 +++
 src/qstabilizerhybrid.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 09cbf66..b592d4b 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -221,6 +221,9 @@ public:
         QUnitPtr dest = std::make_shared<QUnit>(engines, length, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
             randGlobalPhase, useHostRam, devID, useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits,
             separabilityThreshold);
+        dest->SetReactiveSeparate(isReactiveSeparate);
+        dest->SetTInjection(useTGadget);
+        dest->SetNcrp(roundingThreshold);
 
         Decompose(start, dest);
 
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 1df4a99..8b86bff 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -610,6 +610,8 @@ QInterfacePtr QStabilizerHybrid::Decompose(bitLenInt start, bitLenInt length)
     QStabilizerHybridPtr dest = std::make_shared<QStabilizerHybrid>(engineTypes, length, ZERO_BCI, rand_generator,
         phaseFactor, doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, false, (real1_f)amplitudeFloor,
         std::vector<int64_t>{}, thresholdQubits, separabilityThreshold);
+    dest->SetTInjection(useTGadget);
+    dest->SetNcrp(roundingThreshold);
     Decompose(start, dest);
     return dest;
 }
-- 
2.43.0

