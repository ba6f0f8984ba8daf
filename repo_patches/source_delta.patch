From e61cdd61ad2b4a3f1574aa9e8d115edc1df5130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 001/109] fix: copy the comparison kind of classically
 controlled operations

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From f16897201053b6b7e322d4092c2e7107094dbfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 002/109] fix: negate the global phase when inverting a circuit

---
 src/algorithms/StatePreparation.cpp | 2 +-
 src/ir/QuantumComputation.cpp       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..3c19e85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..f94e6eb 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -549,6 +549,9 @@ void QuantumComputation::invert() {
     op->invert();
   }
   std::reverse(ops.begin(), ops.end());
+  const auto phase = globalPhase;
+  globalPhase = 0.;
+  gphase(-phase);
 
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
-- 
2.43.0


From d8c2732edbcf35de1f560312333f5a150ca9084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 003/109] fix: keep the name of an inverted operation in line
 with its type

---
 src/ir/operations/StandardOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..c800c22 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -640,6 +640,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
-- 
2.43.0


From 6fb8543ee0e25aeeefb07db55e624e6cfb12d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 004/109] fix: do not confuse controls and targets when
 comparing diagonal gates

Only gates that apply a phase to a single basis state (P, Z, S, ...) are
symmetric in their controls and their target. A controlled RZ or RZZ gate is
not.
---
 src/ir/operations/Operation.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..982a303 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -134,8 +134,10 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  if (isDiagonalGate()) {
-    // check pos. controls and targets together
+  if (isDiagonalGate() && type != RZ && type != RZZ &&
+      getNtargets() == 1 && op.getNtargets() == 1) {
+    // gates that just apply a phase to a single state are symmetric in their
+    // target and their pos. controls -> check these together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
     if (usedQubits1 != usedQubits2) {
@@ -162,7 +164,14 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  return perm1.apply(getTargets()) == perm2.apply(op.getTargets());
+  const auto& targets1 = perm1.apply(getTargets());
+  const auto& targets2 = perm2.apply(op.getTargets());
+  if (isDiagonalGate()) {
+    // the order of the targets of a diagonal gate is irrelevant
+    return std::is_permutation(targets1.begin(), targets1.end(),
+                               targets2.begin(), targets2.end());
+  }
+  return targets1 == targets2;
 }
 
 void Operation::addDepthContribution(std::vector<std::size_t>& depths) const {
-- 
2.43.0


From 07f5e43119cdadb367bc3d7694483ab29d4ee03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 005/109] fix: give operations that compare equal the same hash

---
 .../ir/operations/NonUnitaryOperation.hpp       | 13 +++++++++++--
 include/mqt-core/ir/operations/Operation.hpp    | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..35ef696 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -23,6 +23,7 @@
 #include <ostream>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -107,10 +108,18 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
+    // the equality of measurements does not depend on their order
+    std::set<std::pair<qc::Qubit, qc::Bit>> measurements{};
+    auto classicIt = op.getClassics().cbegin();
     for (const auto& q : op.getTargets()) {
-      qc::hashCombine(seed, q);
+      if (classicIt != op.getClassics().cend()) {
+        measurements.emplace(q, *classicIt++);
+      } else {
+        qc::hashCombine(seed, q);
+      }
     }
-    for (const auto& c : op.getClassics()) {
+    for (const auto& [q, c] : measurements) {
+      qc::hashCombine(seed, q);
       qc::hashCombine(seed, c);
     }
     return seed;
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..bafd2ca 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -228,6 +228,23 @@ template <> struct std::hash<qc::Operation> {
   std::size_t operator()(const qc::Operation& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
+    if (op.isDiagonalGate() || op.isClassicControlledOperation() ||
+        op.getType() == qc::Measure) {
+      // the equality of these operations does not depend on the order of the
+      // qubits (nor on which of them is the target), so neither may the hash
+      for (const auto& qubit : op.getUsedQubits()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
+      }
+      for (const auto& control : op.getControls()) {
+        if (control.type == qc::Control::Type::Neg) {
+          qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+        }
+      }
+      for (const auto& param : op.getParameter()) {
+        qc::hashCombine(seed, hash<qc::fp>{}(param));
+      }
+      return seed;
+    }
     for (const auto& control : op.getControls()) {
       qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
       if (control.type == qc::Control::Type::Neg) {
-- 
2.43.0


From d7903d09f972a5943f579ae0af02ee9df50cedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 006/109] fix: reset the complete state of a circuit

---
 src/ir/QuantumComputation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index f94e6eb..3abdbc2 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -728,6 +728,10 @@ void QuantumComputation::reset() {
   quantumRegisters.clear();
   classicalRegisters.clear();
   ancillaRegisters.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
   initialLayout.clear();
   outputPermutation.clear();
 }
-- 
2.43.0


From e6f47c185f53099a162a026bac5224c75d52575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 007/109] fix: pair qubits and bits correctly when a qubit is
 measured again

---
 src/ir/QuantumComputation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 3abdbc2..fa3daee 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -270,13 +270,14 @@ void QuantumComputation::initializeIOMapping() {
       auto classicIt = op->getClassics().cbegin();
       for (const auto& q : op->getTargets()) {
         const auto qubitidx = q;
+        const auto bitidx = *classicIt;
+        ++classicIt;
         // only the first measurement of a qubit is used to determine the output
         // permutation
         if (measuredQubits.count(qubitidx) != 0) {
           continue;
         }
 
-        const auto bitidx = *classicIt;
         if (outputPermutationFound) {
           // output permutation was already set before -> permute existing
           // values
@@ -295,7 +296,6 @@ void QuantumComputation::initializeIOMapping() {
           outputPermutation[qubitidx] = static_cast<Qubit>(bitidx);
         }
         measuredQubits.emplace(qubitidx);
-        ++classicIt;
       }
     }
   }
-- 
2.43.0


From 9e80a27926444a5cc42fb819a674300216c82ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 008/109] fix: provide enough bits for measuring a partial
 output permutation

---
 src/ir/QuantumComputation.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index fa3daee..950ad20 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -947,16 +947,21 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
   // ensure that the circuit contains enough classical registers
+  const auto nbits = outputPermutation.empty()
+                         ? 0U
+                         : static_cast<std::size_t>(
+                               outputPermutation.maxValue()) +
+                               1U;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(nbits, registerName);
+  } else if (nclassics < nbits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(nbits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
-- 
2.43.0


From def88a7664089efcdd62d058593894e159378dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 009/109] fix: handle symbolic operations in isDynamic

---
 src/ir/QuantumComputation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 950ad20..c207cf4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1236,7 +1236,8 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() ||
+      (it->isSymbolicOperation() && !it->isCompoundOperation())) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From 6d12b1467d07ebbe48c1145e7c8a48ce670c65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 010/109] fix: respect classical bits when reordering
 operations

Reordering exchanged measurements, classically controlled operations that
depend on them, and dropped operations without qubits.
---
 src/ir/QuantumComputation.cpp | 84 ++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index c207cf4..ced204b 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1126,6 +1126,38 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+/**
+ * @brief Collects all classical bits an operation reads from or writes to
+ * @param op The operation to consider
+ * @param bits The set the bits are added to
+ */
+void collectUsedBits(const Operation& op, std::set<Bit>& bits) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op);
+      compOp != nullptr) {
+    for (const auto& g : *compOp) {
+      collectUsedBits(*g, bits);
+    }
+  } else if (const auto* ccOp =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             ccOp != nullptr) {
+    if (const auto& reg = ccOp->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = ccOp->getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    collectUsedBits(*ccOp->getOperation(), bits);
+  } else if (op.getType() == Measure) {
+    const auto& classics =
+        dynamic_cast<const NonUnitaryOperation&>(op).getClassics();
+    bits.insert(classics.cbegin(), classics.cend());
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1136,13 +1168,40 @@ void QuantumComputation::reorderOperations() {
     highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  // the wires every operation acts on: first all qubits, then all bits
+  const auto numQubitWires = static_cast<std::size_t>(highestPhysicalQubit) + 1;
+  std::vector<std::set<Bit>> usedBits(ops.size());
+  auto numWires = numQubitWires;
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    collectUsedBits(*ops[i], usedBits[i]);
+    if (!usedBits[i].empty()) {
+      numWires = std::max(
+          numWires, numQubitWires + static_cast<std::size_t>(
+                                        *usedBits[i].rbegin()) + 1);
+    }
+  }
 
-  for (auto& op : ops) {
+  auto dag = DAG(numWires);
+
+  std::unordered_map<const std::unique_ptr<Operation>*, std::vector<bool>>
+      wires{};
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    auto& op = ops[i];
     const auto usedQubits = op->getUsedQubits();
+    // operations that do not act on any qubit keep their position
+    std::vector<bool> used(numWires, usedQubits.empty());
     for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+      used.at(q) = true;
+    }
+    for (const auto b : usedBits[i]) {
+      used.at(numQubitWires + static_cast<std::size_t>(b)) = true;
+    }
+    for (std::size_t w = 0; w < numWires; ++w) {
+      if (used[w]) {
+        dag.at(w).push_back(&op);
+      }
     }
+    wires.emplace(&op, std::move(used));
   }
 
   // initialize iterators
@@ -1160,7 +1219,7 @@ void QuantumComputation::reorderOperations() {
   std::vector<std::unique_ptr<Operation>> newOps{};
 
   // iterate over DAG in depth-first fashion starting from the top-most qubit
-  const auto msq = dag.size() - 1;
+  const auto msq = numQubitWires - 1;
   bool done = false;
   while (!done) {
     // assume that everything is done
@@ -1182,20 +1241,13 @@ void QuantumComputation::reorderOperations() {
       // check whether the gate can be scheduled, i.e. whether all qubits it
       // acts on are at this operation
       bool executable = true;
-      std::vector<bool> actsOn(dag.size());
-      actsOn[static_cast<std::size_t>(q)] = true;
+      const auto& actsOn = wires.at(*it);
       for (std::size_t i = 0; i < dag.size(); ++i) {
-        // actually check in reverse order
-        const auto qb =
-            static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
-          actsOn[static_cast<std::size_t>(qb)] = true;
-
-          assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-                 dag.at(static_cast<std::size_t>(qb)).end());
+        if (i != static_cast<std::size_t>(q) && actsOn[i]) {
+          assert(dagIterators.at(i) != dag.at(i).end());
           // check whether operation is executable for the currently considered
-          // qubit
-          if (*dagIterators.at(static_cast<std::size_t>(qb)) != *it) {
+          // qubit or bit
+          if (*dagIterators.at(i) != *it) {
             executable = false;
             break;
           }
-- 
2.43.0


From 4cfb78087f76ff62386459c35f5f2313d806dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 011/109] fix: consider all used bits when creating a circuit
 from a compound operation

---
 src/ir/QuantumComputation.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index ced204b..fe43daa 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1334,13 +1334,11 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
+    // update the maximum classical bit index
+    std::set<Bit> usedBits{};
+    collectUsedBits(*g, usedBits);
+    if (!usedBits.empty()) {
+      maxBitIndex = std::max(maxBitIndex, *usedBits.rbegin());
     }
   }
 
-- 
2.43.0


From cc108035e51c81b8d777768311ffe2cc42a8d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:57 +0000
Subject: [PATCH 012/109] fix: terminate scanning of an unterminated string
 literal

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..f56f270 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -328,7 +328,7 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
-- 
2.43.0


From 7aab6f3489de182ed70b3c9da2ce339452f1dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:57 +0000
Subject: [PATCH 013/109] fix: value of uppercase hexadecimal digits

---
 src/qasm3/Scanner.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index f56f270..9bc55d4 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -172,9 +172,12 @@ uint64_t Scanner::parseIntegerLiteral(const std::string& str,
     if (isNum(c)) {
       val *= base;
       val += static_cast<uint64_t>(c) - '0';
-    } else {
+    } else if (c >= 'a') {
       val *= base;
       val += static_cast<uint64_t>(c) - 'a' + 10;
+    } else {
+      val *= base;
+      val += static_cast<uint64_t>(c) - 'A' + 10;
     }
   }
   return val;
-- 
2.43.0


From 4534a5c3d7b87ff9e2d31bd801bfee9fc48eee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 014/109] fix: precedence of signs and comparisons in OpenQASM
 expressions

---
 include/mqt-core/qasm3/Parser.hpp |   8 +++
 src/qasm3/Parser.cpp              | 106 ++++++++++++++++++------------
 2 files changed, 73 insertions(+), 41 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..855a60e 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -138,8 +138,16 @@ public:
 
   std::shared_ptr<Expression> factor();
 
+  // Turns the negative literal at the current position into its absolute value
+  // so that the sign can be treated as an operator.
+  bool splitNegativeLiteral();
+
+  std::shared_ptr<Expression> unary();
+
   std::shared_ptr<Expression> term();
 
+  std::shared_ptr<Expression> additive();
+
   std::shared_ptr<Expression> comparison();
 
   std::shared_ptr<Expression> parseExpression();
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..9e191a1 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -18,6 +18,7 @@
 #include "qasm3/Token.hpp"
 #include "qasm3/Types.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <fstream>
 #include <istream>
@@ -653,12 +654,6 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
 
 std::shared_ptr<Expression> Parser::exponentiation() {
   switch (current().kind) {
-  case Token::Kind::Minus: {
-    scan();
-    const auto x = exponentiation();
-    return std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, x});
-  }
   case Token::Kind::FloatLiteral: {
     const auto val = current().valReal;
     scan();
@@ -732,28 +727,86 @@ std::shared_ptr<Expression> Parser::factor() {
   auto x = exponentiation();
   while (current().kind == Token::Kind::Caret) {
     scan();
-    const auto y = exponentiation();
+    const auto y =
+        current().kind == Token::Kind::Minus ? unary() : exponentiation();
     x = std::make_shared<BinaryExpression>(BinaryExpression::Op::Power, x, y);
   }
   return x;
 }
 
+bool Parser::splitNegativeLiteral() {
+  auto& token = scanner.top().t;
+  if (token.kind == Token::Kind::IntegerLiteral && token.isSigned) {
+    token.val = static_cast<int64_t>(0 - static_cast<uint64_t>(token.val));
+    token.isSigned = false;
+    return true;
+  }
+  if (token.kind == Token::Kind::FloatLiteral && std::signbit(token.valReal)) {
+    token.valReal = -token.valReal;
+    return true;
+  }
+  return false;
+}
+
+std::shared_ptr<Expression> Parser::unary() {
+  switch (current().kind) {
+  case Token::Kind::Minus:
+    scan();
+    return std::make_shared<UnaryExpression>(
+        UnaryExpression{UnaryExpression::Op::Negate, unary()});
+  case Token::Kind::ExclamationPoint:
+    scan();
+    return std::make_shared<UnaryExpression>(
+        UnaryExpression{UnaryExpression::Op::LogicalNot, unary()});
+  case Token::Kind::Tilde:
+    scan();
+    return std::make_shared<UnaryExpression>(
+        UnaryExpression{UnaryExpression::Op::BitwiseNot, unary()});
+  default:
+    // The exponentiation binds more tightly than the sign of a literal.
+    if (peek().kind == Token::Kind::Caret && splitNegativeLiteral()) {
+      return std::make_shared<UnaryExpression>(
+          UnaryExpression{UnaryExpression::Op::Negate, factor()});
+    }
+    return factor();
+  }
+}
+
 std::shared_ptr<Expression> Parser::term() {
-  auto x = factor();
+  auto x = unary();
   while (current().kind == Token::Kind::Asterisk ||
          current().kind == Token::Kind::Slash) {
     auto const op = current().kind == Token::Kind::Asterisk
                         ? BinaryExpression::Op::Multiply
                         : BinaryExpression::Op::Divide;
     scan();
-    const auto y = factor();
+    const auto y = unary();
     x = std::make_shared<BinaryExpression>(op, x, y);
   }
   return x;
 }
 
-std::shared_ptr<Expression> Parser::comparison() {
+std::shared_ptr<Expression> Parser::additive() {
   auto x = term();
+  while (true) {
+    auto op = BinaryExpression::Op::Subtract;
+    if (current().kind == Token::Kind::Plus ||
+        current().kind == Token::Kind::Minus) {
+      if (current().kind == Token::Kind::Plus) {
+        op = BinaryExpression::Op::Add;
+      }
+      scan();
+    } else if (!splitNegativeLiteral()) {
+      // A negative literal following an operand denotes a subtraction.
+      return x;
+    }
+    const auto y = term();
+    x = std::make_shared<BinaryExpression>(op, x, y);
+  }
+}
+
+std::shared_ptr<Expression> Parser::comparison() {
+  auto x = additive();
   while (current().kind == Token::Kind::DoubleEquals ||
          current().kind == Token::Kind::NotEquals ||
          current().kind == Token::Kind::LessThan ||
@@ -784,42 +837,13 @@ std::shared_ptr<Expression> Parser::comparison() {
       error(current(), "Expected comparison operator");
     }
     scan();
-    const auto y = term();
+    const auto y = additive();
     x = std::make_shared<BinaryExpression>(op, x, y);
   }
   return x;
 }
 
-std::shared_ptr<Expression> Parser::parseExpression() {
-  std::shared_ptr<Expression> x{};
-  if (current().kind == Token::Kind::Minus) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, term()});
-  } else if (current().kind == Token::Kind::ExclamationPoint) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::LogicalNot, term()});
-  } else if (current().kind == Token::Kind::Tilde) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::BitwiseNot, term()});
-  } else {
-    x = comparison();
-  }
-
-  while (current().kind == Token::Kind::Plus ||
-         current().kind == Token::Kind::Minus) {
-    auto const op = current().kind == Token::Kind::Plus
-                        ? BinaryExpression::Op::Add
-                        : BinaryExpression::Op::Subtract;
-    scan();
-    const auto y = comparison();
-    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
-  }
-
-  return x;
-}
+std::shared_ptr<Expression> Parser::parseExpression() { return comparison(); }
 
 std::shared_ptr<IdentifierList> Parser::parseIdentifierList() {
   std::vector<std::shared_ptr<IdentifierExpression>> identifierList{};
-- 
2.43.0


From 7d1dc48555e57c7f1ad5c7b2226e14a9f9e36c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 015/109] fix: constant evaluation of unary operators on
 integers

---
 src/qasm3/passes/ConstEvalPass.cpp | 35 ++++++++++++++++++++++++++----
 src/qasm3/passes/TypeCheckPass.cpp |  5 +++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..328af91 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -425,8 +425,12 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
        rhsVal->type == ConstEvalValue::Type::ConstInt)) {
     lhsVal->type = ConstEvalValue::Type::ConstInt;
     rhsVal->type = ConstEvalValue::Type::ConstInt;
-  } else if ((lhsVal->type == ConstEvalValue::Type::ConstUint ||
-              lhsVal->type == ConstEvalValue::Type::ConstInt) &&
+  } else if (lhsVal->type == ConstEvalValue::Type::ConstUint &&
+             rhsVal->type == ConstEvalValue::Type::ConstFloat) {
+    lhsVal->value =
+        static_cast<double>(static_cast<uint64_t>(std::get<0>(lhsVal->value)));
+    lhsVal->type = ConstEvalValue::Type::ConstFloat;
+  } else if (lhsVal->type == ConstEvalValue::Type::ConstInt &&
              rhsVal->type == ConstEvalValue::Type::ConstFloat) {
     lhsVal->value = static_cast<double>(std::get<0>(lhsVal->value));
     lhsVal->type = ConstEvalValue::Type::ConstFloat;
@@ -475,6 +479,25 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  // The functions operate on floating-point numbers; integers are coerced.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    if (val->type == ConstEvalValue::Type::ConstInt) {
+      val = ConstEvalValue{static_cast<double>(std::get<0>(val->value))};
+    } else if (val->type == ConstEvalValue::Type::ConstUint) {
+      val = ConstEvalValue{static_cast<double>(
+          static_cast<uint64_t>(std::get<0>(val->value)))};
+    }
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
@@ -493,8 +516,12 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
-      val->value = -std::get<0>(val->value);
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      // negate the bit representation, which is also defined for the minimum
+      val->value = static_cast<int64_t>(
+          0 - static_cast<uint64_t>(std::get<0>(val->value)));
+      val->type = ConstEvalValue::Type::ConstInt;
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..360bbab 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -279,6 +279,11 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
+    if (!type.isError && type.type->isUint()) {
+      // the negation of an unsigned integer is signed
+      return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
+    }
     break;
   case UnaryExpression::DurationOf:
     return InferredType{UnsizedType<uint64_t>::getDurationTy()};
-- 
2.43.0


From 84402205f726801a764246d745ea29cc8a5a5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:26 +0000
Subject: [PATCH 016/109] fix: undefined integer operations in constant
 evaluation

---
 src/qasm3/passes/ConstEvalPass.cpp | 45 ++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 328af91..a71d6ec 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -25,17 +25,30 @@
 #include <optional>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 namespace qasm3::const_eval {
 namespace {
 template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
+  if (exponent < 0) {
+    throw ConstEvalError("Negative exponent in constant evaluation.");
+  }
+  if (exponent == 0 || base == 1) {
     return 1;
   }
+  if (base == 0) {
+    return 0;
+  }
+  if (std::is_signed_v<T> && base == static_cast<T>(-1)) {
+    return exponent % 2 == 0 ? 1 : base;
+  }
 
+  // from here on, the absolute value of the result doubles in every iteration
+  const T upper = std::numeric_limits<T>::max() / base;
+  const T lower = std::numeric_limits<T>::min() / base;
   T result = 1;
   for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
+    if (result > std::max(lower, upper) || result < std::min(lower, upper)) {
       throw ConstEvalError("Integer overflow in constant evaluation.");
     }
     result *= base;
@@ -175,6 +188,17 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   auto rhsU = static_cast<uint64_t>(rhs);
   ConstEvalValue result{0, isSigned, width};
 
+  // Reject operations that are not defined for the given operands.
+  if ((op == BinaryExpression::Divide || op == BinaryExpression::Modulo) &&
+      rhs == 0) {
+    throw ConstEvalError("Division by zero in constant evaluation.");
+  }
+  if ((op == BinaryExpression::LeftShift ||
+       op == BinaryExpression::RightShift) &&
+      rhsU >= width) {
+    throw ConstEvalError("Invalid shift amount in constant evaluation.");
+  }
+
   // First evaluate the result. For some operations (e.g. division, comparison)
   // we need to handle signed and unsigned integers differently. For others,
   // such as addition and subtraction we can use the unsigned version directly.
@@ -193,32 +217,25 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     result.value = static_cast<int64_t>(lhsU - rhsU);
     break;
   case BinaryExpression::Multiply:
-    if (isSigned) {
-      result.value = lhs * rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU * rhsU);
-    }
+    result.value = static_cast<int64_t>(lhsU * rhsU);
     break;
   case BinaryExpression::Divide:
     if (isSigned) {
-      result.value = lhs / rhs;
+      // dividing the minimum by -1 wraps around
+      result.value = rhs == -1 ? static_cast<int64_t>(0 - lhsU) : lhs / rhs;
     } else {
       result.value = static_cast<int64_t>(lhsU / rhsU);
     }
     break;
   case BinaryExpression::Modulo:
     if (isSigned) {
-      result.value = lhs % rhs;
+      result.value = rhs == -1 ? 0 : lhs % rhs;
     } else {
       result.value = static_cast<int64_t>(lhsU % rhsU);
     }
     break;
   case BinaryExpression::LeftShift:
-    if (isSigned) {
-      result.value = lhs << rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU << rhsU);
-    }
+    result.value = static_cast<int64_t>(lhsU << rhsU);
     break;
   case BinaryExpression::RightShift:
     if (isSigned) {
-- 
2.43.0


From d2e482a6060bde50d2e0c37ac30f3fe86b20f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 017/109] fix: only treat dedicated comments as layout
 information

---
 src/qasm3/Scanner.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 9bc55d4..12550a4 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -69,13 +69,15 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
       nextCh();
     }
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
+    static const auto INITIAL_LAYOUT_REGEX =
+        std::regex("//\\s*i( +\\d+)+\\s*");
+    static const auto OUTPUT_PERMUTATION_REGEX =
+        std::regex("//\\s*o( +\\d+)+\\s*");
 
     const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
+    if (std::regex_match(str, INITIAL_LAYOUT_REGEX)) {
       t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
+    } else if (std::regex_match(str, OUTPUT_PERMUTATION_REGEX)) {
       t.kind = Token::Kind::OutputPermutation;
     } else {
       return consumeWhitespaceAndComments();
-- 
2.43.0


From 9f620bfb7d63333dc1738afc16c621ebd2f1ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 018/109] fix: reject empty index lists during OpenQASM import

---
 src/qasm3/Importer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..db2f4ae 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -135,7 +135,7 @@ void Importer::translateGateOperand(
                         debugInfo);
   }
   const auto indexOperator = indexedIdentifier->indices[0];
-  if (indexOperator->indexExpressions.size() > 1) {
+  if (indexOperator->indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -175,7 +175,7 @@ void Importer::translateBitOperand(
                         debugInfo);
   }
   const auto& indexExpressions = indices[0]->indexExpressions;
-  if (indexExpressions.size() > 1) {
+  if (indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
-- 
2.43.0


From 941942a63c4e80785cb3fd12bf924eb44e8fd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 019/109] fix: comparisons of single bits and swapped operands
 in conditions

---
 src/qasm3/Importer.cpp | 45 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index db2f4ae..2fc4058 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -225,9 +225,46 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (!constant->isInt() ||
+        (constant->isSInt() && constant->getSInt() < 0)) {
+      throw CompilerError("Only non-negative integers are supported in "
+                          "conditions.",
+                          debugInfo);
+    }
+    const auto val = constant->getUInt();
+    auto kind = *comparisonKind;
+    if (!lhsIsIdentifier) {
+      // `val < creg` is equivalent to `creg > val`
+      switch (kind) {
+      case qc::Lt:
+        kind = qc::Gt;
+        break;
+      case qc::Leq:
+        kind = qc::Geq;
+        break;
+      case qc::Gt:
+        kind = qc::Lt;
+        break;
+      case qc::Geq:
+        kind = qc::Leq;
+        break;
+      default:
+        break;
+      }
+    }
+
+    if (!indexedIdentifier->indices.empty()) {
+      // comparison of a single bit
+      if ((kind != qc::Eq && kind != qc::Neq) || val > 1) {
+        throw CompilerError("Single bits may only be compared to 0 or 1.",
+                            debugInfo);
+      }
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      return std::pair{bits[0], (kind == qc::Eq) == (val == 1)};
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
@@ -235,7 +272,7 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
-    return std::tuple{creg->second, *comparisonKind, val};
+    return std::tuple{creg->second, kind, val};
   }
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
-- 
2.43.0


From 29bd45fbc72da2cfe3aeb19bc3898e8c2c76cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 020/109] fix: reject unsupported conditions during OpenQASM
 import

---
 src/qasm3/Importer.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 2fc4058..ac42436 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -274,30 +274,28 @@ Importer::translateCondition(
     }
     return std::tuple{creg->second, kind, val};
   }
+  auto operand = condition;
+  auto expectedValue = true;
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
-      unaryExpression != nullptr) {
-    // This should already be caught by the type checker.
-    assert(unaryExpression->op == UnaryExpression::LogicalNot ||
-           unaryExpression->op == UnaryExpression::BitwiseNot);
-    const auto& indexedIdentifier =
-        std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
-    std::vector<qc::Bit> bits{};
-    translateBitOperand(indexedIdentifier, bits, debugInfo);
-    // This should already be caught by the type checker.
-    assert(bits.size() == 1);
-    return std::pair{bits[0], false};
+      unaryExpression != nullptr &&
+      (unaryExpression->op == UnaryExpression::LogicalNot ||
+       unaryExpression->op == UnaryExpression::BitwiseNot)) {
+    operand = unaryExpression->operand;
+    expectedValue = false;
   }
   // must be a single bit at this point
   const auto& indexedIdentifier =
-      std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
+      std::dynamic_pointer_cast<IndexedIdentifier>(operand);
   std::vector<qc::Bit> bits{};
-  translateBitOperand(indexedIdentifier, bits, debugInfo);
-  // This should already be caught by the type checker.
-  assert(bits.size() == 1);
-  return std::pair{bits[0], true};
+  if (indexedIdentifier != nullptr) {
+    translateBitOperand(indexedIdentifier, bits, debugInfo);
+  }
+  if (bits.size() != 1) {
+    throw CompilerError("Condition must be a comparison or a single bit.",
+                        debugInfo);
+  }
+  return std::pair{bits[0], expectedValue};
 }
 
 uint64_t
-- 
2.43.0


From 69e964abf49d2e6367585152f60850c410da64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 021/109] fix: operands of control modifiers on controlled
 gates

---
 src/qasm3/Importer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index ac42436..6c618ed 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -577,10 +577,8 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                         gateCallStatement->debugInfo);
   }
 
+  // the controls of the modifiers precede the controls of the gate itself
   controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
 
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
@@ -591,7 +589,7 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-      if (targets.size() < n + nControls) {
+      if (targets.size() - nControls < n) {
         throw CompilerError(
             "Gate '" + identifier + "' takes " + std::to_string(n + nControls) +
                 " controls, but only " + std::to_string(targets.size()) +
@@ -600,7 +598,7 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
       }
 
       for (size_t i = 0; i < n; ++i) {
-        controls.emplace_back(targets[nControls + i], ctrlModifier->ctrlType);
+        controls.emplace_back(targets[controls.size()], ctrlModifier->ctrlType);
       }
       nControls += n;
     } else if (auto invModifier =
@@ -614,6 +612,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+  for (size_t i = controls.size(); i < nControls; ++i) {
+    controls.emplace_back(targets[i], true);
+  }
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From ad3e41503994b4f72f1b3e8e3cba7b949f75d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 022/109] fix: do not modify the types of registers during type
 checking

---
 src/qasm3/passes/TypeCheckPass.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 360bbab..527b58d 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -208,8 +208,14 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    // do not modify the types of the operands
+    if (const auto designatedType =
+            std::dynamic_pointer_cast<DesignatedType<uint64_t>>(ty.type)) {
+      ty = InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          std::make_shared<DesignatedType<uint64_t>>(
+              designatedType->type, std::max(lhs.type->getDesignator(),
+                                             rhs.type->getDesignator())))};
+    }
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -352,9 +358,18 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
   if (indexedIdentifier->indices.empty()) {
     return type;
   }
-  // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  if (type.isError) {
+    return type;
+  }
+  const auto designatedType =
+      std::dynamic_pointer_cast<DesignatedType<uint64_t>>(type.type);
+  if (designatedType == nullptr) {
+    return error("Cannot index '" + indexedIdentifier->identifier + "'.");
+  }
+  // Assume that indexed access always results in a single element. The type of
+  // the register itself must not be modified.
+  return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+      std::make_shared<DesignatedType<uint64_t>>(designatedType->type, 1))};
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From bb20d424480e774c9aadbf09715a05e1b80c6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 023/109] fix: handle invalid operands during type checking

---
 src/qasm3/passes/TypeCheckPass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 527b58d..2aa5393 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -166,7 +166,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
@@ -272,6 +272,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
@@ -285,7 +288,7 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (!type.isError && type.type->isUint()) {
+    if (type.type->isUint()) {
       // the negation of an unsigned integer is signed
       return InferredType{std::dynamic_pointer_cast<ResolvedType>(
           DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
-- 
2.43.0


From a4057d7d47bc18bfd354f2e828a151b86a02528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 024/109] fix: do not resolve identifiers in the scope of
 calling gates

---
 include/mqt-core/qasm3/NestedEnvironment.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..bb46013 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -27,11 +27,13 @@ public:
   void pop() { env.pop_back(); }
 
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
-        return found->second;
-      }
+    // Only the innermost and the global scope are visible. Everything in
+    // between belongs to the callers of the current gate.
+    if (const auto found = env.back().find(key); found != env.back().end()) {
+      return found->second;
+    }
+    if (const auto found = env.front().find(key); found != env.front().end()) {
+      return found->second;
     }
     return std::nullopt;
   }
-- 
2.43.0


From 0daeb46585d39ef6556f8505d8cf0b97687ca971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 025/109] fix: reject recursive gate definitions

---
 include/mqt-core/qasm3/Importer.hpp | 2 ++
 src/qasm3/Importer.cpp              | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..4953e02 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -87,6 +87,8 @@ private:
   type_checking::TypeCheckPass typeCheckPass;
 
   NestedEnvironment<std::shared_ptr<DeclarationStatement>> declarations;
+  // the gates whose bodies are currently being translated
+  std::vector<std::shared_ptr<Gate>> activeGates;
   qc::QuantumComputation* qc{};
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6c618ed..74f255d 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -788,6 +788,12 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    if (std::find(activeGates.begin(), activeGates.end(), gate) !=
+        activeGates.end()) {
+      throw CompilerError("Recursive gate definitions are not supported.",
+                          debugInfo);
+    }
+    activeGates.emplace_back(gate);
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -859,6 +865,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    activeGates.pop_back();
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From 6e41c973b479ac80383c161ef61e1aae1f20c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 026/109] fix: operands and negative controls of Peres gates in
 the OpenQASM export

---
 src/ir/operations/StandardOperation.cpp | 34 ++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index c800c22..d54e357 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
@@ -439,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From 33153d4f67f5e869ffd2c18fe28d98cfd6d8670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 027/109] fix: export measurements, resets and barriers with
 their own operands

---
 include/mqt-core/ir/operations/Operation.hpp | 17 ++++++++----
 src/ir/operations/NonUnitaryOperation.cpp    | 28 +++++++++++++-------
 src/ir/operations/StandardOperation.cpp      |  2 +-
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index bafd2ca..57ca3e3 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -36,12 +36,19 @@ protected:
 
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
+  // Whether the qubits are all qubits of a register in ascending order.
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const Targets& qubits) {
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (reg.getSize() != qubits.size()) {
+      return false;
+    }
+    for (std::size_t i = 0; i < qubits.size(); ++i) {
+      if (qubits[i] != reg.getStartIndex() + i) {
+        return false;
+      }
+    }
+    return true;
   }
 
 public:
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..8163b56 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,19 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+// Whether the bits are all bits of a register in ascending order.
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (reg.getSize() != bits.size()) {
+    return false;
+  }
+  for (std::size_t i = 0; i < bits.size(); ++i) {
+    if (bits[i] != reg.getStartIndex() + i) {
+      return false;
+    }
+  }
+  return true;
 }
 } // namespace
 
@@ -94,9 +101,8 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        bool openQASM3) const {
   of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
@@ -119,9 +125,11 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
     if (type == Measure && !openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << " -> " << creg.second;
-      ++classicsIt;
     }
     of << ";\n";
+    if (type == Measure) {
+      ++classicsIt;
+    }
   }
 }
 
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index d54e357..0dd10fe 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -474,7 +474,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 01cfa3258b0ee5d53a164e317fe1a694d6b6a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 028/109] fix: apply the condition to every statement in the
 OpenQASM 2 export

---
 .../operations/ClassicControlledOperation.cpp | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..41a6bb8 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,32 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
-  if (openQASM3) {
-    of << "{\n";
-  }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+  condition << ") ";
   if (openQASM3) {
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
     of << "}\n";
+    return;
+  }
+  // OpenQASM 2 has no blocks, so that every statement needs the condition
+  std::stringstream body;
+  op->dumpOpenQASM(body, qubitMap, bitMap, 0, openQASM3);
+  std::string statement;
+  while (std::getline(body, statement)) {
+    of << condition.str() << statement << "\n";
   }
 }
 
-- 
2.43.0


From 04cb042e4ec9e15e7195970b36d86e17fe1d1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 029/109] fix: arithmetic and equality of symbolic expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..20530f6 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -353,7 +353,10 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con) {
+    sortTerms();
+    aggregateEqualTerms();
+  }
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
@@ -398,6 +401,12 @@ public:
    * @return Reference to the expression.
    */
   Expression& operator+=(const Expression& rhs) {
+    if (&rhs == this) {
+      // the terms must not be modified while iterating over them
+      const Expression copy = rhs;
+      return *this += copy;
+    }
+
     if (this->isZero()) {
       *this = rhs;
       return *this;
@@ -702,9 +711,8 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
 }
 
 template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
@@ -719,14 +727,12 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
   return lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const Term<T>& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const U& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 
 template <typename T, typename U>
@@ -794,7 +800,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From c1e1e744676668fa8493a7e7bd54f240a15616dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 030/109] fix: parameters of symbolic U gates that are other
 gates

---
 src/ir/operations/SymbolicOperation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..02b60d1 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -229,8 +229,16 @@ void SymbolicOperation::checkSymbolicUgate() {
       type = parseU3(symbolicParameter[0].value(), symbolicParameter[1].value(),
                      parameter[2]);
     }
+    // gates with fewer parameters do not use the leading ones
+    if (isSymbolicOperation() && (type == U2 || type == P)) {
+      const auto obsolete = type == U2 ? 1 : 2;
+      parameter.erase(parameter.begin(), parameter.begin() + obsolete);
+      symbolicParameter.erase(symbolicParameter.begin(),
+                              symbolicParameter.begin() + obsolete);
+    }
   }
   // NOLINTEND(bugprone-unchecked-optional-access)
+  symbolicParameter.resize(parameter.size());
 }
 
 void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
@@ -390,6 +398,8 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From 541f9550e846cbf59faa2f4f4674d87f9e42b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 031/109] fix: equality of symbolic operations

---
 .../ir/operations/SymbolicOperation.hpp       |  1 +
 src/ir/operations/Operation.cpp               |  5 ++++
 src/ir/operations/SymbolicOperation.cpp       | 26 +++----------------
 3 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/mqt-core/ir/operations/SymbolicOperation.hpp b/include/mqt-core/ir/operations/SymbolicOperation.hpp
index 3345f53..6f4c490 100644
--- a/include/mqt-core/ir/operations/SymbolicOperation.hpp
+++ b/include/mqt-core/ir/operations/SymbolicOperation.hpp
@@ -39,6 +39,7 @@ public:
 
   void setSymbolicParameter(const Symbolic& par, const std::size_t i) {
     symbolicParameter.at(i) = par;
+    parameter.at(i) = 0.;
   }
 
   // Standard Constructors
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 982a303..4c92e52 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -127,6 +127,11 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  // symbolic and numeric parameters are different
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
   // check parameters
   const auto& param1 = getParameter();
   const auto& param2 = op.getParameter();
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 02b60d1..11e2b1b 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -339,32 +339,14 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
+  if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
+  if (!isSymbolicOperation()) {
     return true;
   }
-
-  if (!op.isSymbolicOperation()) {
-    return false;
-  }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
-  }
-  return true;
+  const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+  return symOp != nullptr && symbolicParameter == symOp->symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From e87c29b97ece1643a14fbb38bfb8f8080e26cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 032/109] fix: instantiate symbolic operations nested in other
 operations

---
 .../operations/ClassicControlledOperation.hpp |  4 ++
 src/ir/QuantumComputation.cpp                 | 46 +++++++++++++++----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..6466dc0 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -101,6 +101,10 @@ public:
     return true;
   }
 
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool actsOn(const Qubit i) const override {
     return op->actsOn(i);
   }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index fe43daa..ab20cce 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1104,20 +1104,46 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+namespace {
+void instantiateOperation(std::unique_ptr<Operation>& op,
+                          const VariableAssignment& assignment) {
+  if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
+      symOp != nullptr) {
+    symOp->instantiate(assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
+    if (symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
+    }
+  } else if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
+             compOp != nullptr) {
+    for (auto& g : *compOp) {
+      instantiateOperation(g, assignment);
+    }
+  } else if (const auto* ccOp =
+                 dynamic_cast<const ClassicControlledOperation*>(op.get());
+             ccOp != nullptr && ccOp->isSymbolicOperation()) {
+    auto body = ccOp->getOperation()->clone();
+    instantiateOperation(body, assignment);
+    const auto expected = ccOp->getExpectedValue();
+    const auto kind = ccOp->getComparisonKind();
+    if (const auto reg = ccOp->getControlRegister(); reg.has_value()) {
+      op = std::make_unique<ClassicControlledOperation>(std::move(body), *reg,
+                                                        expected, kind);
+    } else {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(body), ccOp->getControlBit().value(), expected, kind);
+    }
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
   for (auto& op : ops) {
-    if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
-    }
+    instantiateOperation(op, assignment);
   }
   // after an operation is instantiated, the respective parameters can be
   // removed from the circuit
-- 
2.43.0


From c085d7d53d033d94333eff37938704aa041c55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 033/109] fix: do not decompose controlled SWAP gates as if
 they were uncontrolled

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..69ac0ea 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -594,7 +594,7 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
+      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
         const auto targets = (*it)->getTargets();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
@@ -623,7 +623,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
       auto cit = compOp.begin();
       while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
+        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
+            !(*cit)->isControlled()) {
           const auto targets = (*cit)->getTargets();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-- 
2.43.0


From 2b4a1335690b2935d8a206f86d876deeeaa81fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 034/109] fix: fuse single-qubit gates with standard operations
 only

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 69ac0ea..02dc6e7 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -186,7 +186,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 6e9caff102ab72f501b828d3f480b30426000bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 035/109] fix: remove diagonal gates before measurements only
 if nothing remains behind them

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 29 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 02dc6e7..a0ee416 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -324,6 +324,25 @@ void removeDiagonalGatesBeforeMeasureRecursive(
       // all corresponding iterators
       auto* compOp = dynamic_cast<CompoundOperation*>(op);
       bool onlyDiagonalGates = true;
+      // no other operation may remain behind the compound operation
+      for (const auto q : compOp->getUsedQubits()) {
+        if (q == idx) {
+          continue;
+        }
+        if (dagIterators.at(q) != dag.at(q).rend()) {
+          removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, q, op);
+        }
+        if (it == dag.at(idx).rend() ||
+            dagIterators.at(q) == dag.at(q).rend() ||
+            *dagIterators.at(q) != *it) {
+          onlyDiagonalGates = false;
+          break;
+        }
+      }
+      if (!onlyDiagonalGates) {
+        it = dag.at(idx).rend();
+        break;
+      }
       auto cit = compOp->rbegin();
       while (cit != compOp->rend()) {
         auto* cop = cit->get();
@@ -380,7 +399,7 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
     return false;
   }
 
-  if (op->getNcontrols() != 0) {
+  if (op->getUsedQubits().size() > 1) {
     // need to check all controls and targets
     bool onlyDiagonalGates = true;
     for (const auto& control : op->getControls()) {
@@ -401,7 +420,9 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
                                                 (*it)->get());
       // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
+      if (it == dag.at(idx).rend() ||
+          dagIterators.at(controlQubit) == dag.at(controlQubit).rend() ||
+          *dagIterators.at(controlQubit) != *it) {
         onlyDiagonalGates = false;
         break;
       }
@@ -418,7 +439,9 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
                                                 (*it)->get());
       // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
+      if (it == dag.at(idx).rend() ||
+          dagIterators.at(target) == dag.at(target).rend() ||
+          *dagIterators.at(target) != *it) {
         onlyDiagonalGates = false;
         break;
       }
-- 
2.43.0


From 20d0e775401233bb5b84e4fbf75fdffa2a17c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 036/109] fix: remove final measurements only

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 80 +++++++++++++++++++++-
 1 file changed, 77 insertions(+), 3 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a0ee416..ec9b9f9 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -486,6 +486,55 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 }
 
 namespace {
+/// collect all classical bits that decide whether an operation is applied
+void collectReadBits(const Operation& op, std::unordered_set<Bit>& bits) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    for (const auto& g : *compOp) {
+      collectReadBits(*g, bits);
+    }
+  } else if (const auto* classicOp =
+                 dynamic_cast<const ClassicControlledOperation*>(&op)) {
+    if (const auto& reg = classicOp->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = classicOp->getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    collectReadBits(*classicOp->getOperation(), bits);
+  }
+}
+
+/// check whether an operation is a measurement into one of the given bits
+bool writesAny(const Operation& op, const std::unordered_set<Bit>& bits) {
+  const auto* measurement = dynamic_cast<const NonUnitaryOperation*>(&op);
+  return measurement != nullptr &&
+         std::any_of(measurement->getClassics().begin(),
+                     measurement->getClassics().end(),
+                     [&bits](const auto bit) { return bits.count(bit) != 0; });
+}
+
+/// collect the qubits whose measurement determines one of the given bits
+void collectMeasuredQubits(const Operation& op,
+                           const std::unordered_set<Bit>& bits,
+                           std::unordered_set<Qubit>& qubits) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    for (const auto& g : *compOp) {
+      collectMeasuredQubits(*g, bits, qubits);
+    }
+  } else if (const auto* measurement =
+                 dynamic_cast<const NonUnitaryOperation*>(&op);
+             measurement != nullptr && op.getType() == Measure) {
+    const auto& classics = measurement->getClassics();
+    for (std::size_t i = 0; i < classics.size(); ++i) {
+      if (bits.count(classics[i]) != 0) {
+        qubits.insert(op.getTargets()[i]);
+      }
+    }
+  }
+}
+
 bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
                             CircuitOptimizer::DAGReverseIterators& dagIterators,
                             Qubit idx,
@@ -527,18 +576,28 @@ void removeFinalMeasurementsRecursive(
           ++(dagIterators.at(target));
         }
       }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
+    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation() &&
+               op->actsOn(idx)) {
       // iterate over all gates of compound operation and upon success increase
       // all corresponding iterators
       auto* compOp = dynamic_cast<CompoundOperation*>(op);
       bool onlyMeasurement = true;
+      std::unordered_set<Bit> readBits{};
       auto cit = compOp->rbegin();
       while (cit != compOp->rend()) {
         auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
+        collectReadBits(*cop, readBits);
+        if (!cop->actsOn(idx) || cop->getType() == I) {
           ++cit;
           continue;
         }
+        if ((cop->getType() != Measure && cop->getType() != Barrier) ||
+            writesAny(*cop, readBits)) {
+          // not a final measurement, we are done
+          onlyMeasurement = false;
+          it = dag.at(idx).rend();
+          break;
+        }
         onlyMeasurement =
             removeFinalMeasurement(dag, dagIterators, idx, it, cop);
         if (!onlyMeasurement) {
@@ -601,7 +660,22 @@ bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
+  auto dag = DAG(qc.getHighestPhysicalQubitIndex() + 1);
+  for (auto op = qc.begin(); op != qc.end(); ++op) {
+    addToDag(dag, &*op);
+    // measurements whose result is used later on are not final
+    std::unordered_set<Bit> readBits{};
+    collectReadBits(**op, readBits);
+    std::unordered_set<Qubit> measuredQubits{};
+    for (auto prev = qc.begin(); !readBits.empty() && prev != op; ++prev) {
+      collectMeasuredQubits(**prev, readBits, measuredQubits);
+    }
+    for (const auto q : measuredQubits) {
+      if (!(*op)->actsOn(q)) {
+        dag.at(q).push_back(&*op);
+      }
+    }
+  }
   DAGReverseIterators dagIterators{dag.size()};
   for (size_t q = 0; q < dag.size(); ++q) {
     dagIterators.at(q) = (dag.at(q).rbegin());
-- 
2.43.0


From 356640c432f25edd2edafd634ffa01f7a370dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 037/109] fix: eliminate resets that occur first in a compound
 operation and rename qubits in nested operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 42 ++++++++++------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index ec9b9f9..a0f2637 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -778,6 +778,21 @@ void changeControls(Controls& controls,
     }
   }
 }
+
+void changeQubits(Operation& op, const std::map<Qubit, Qubit>& replacementMap) {
+  if (auto* compOp = dynamic_cast<CompoundOperation*>(&op)) {
+    for (auto& g : *compOp) {
+      changeQubits(*g, replacementMap);
+    }
+  } else if (auto* classicOp = dynamic_cast<ClassicControlledOperation*>(&op)) {
+    changeQubits(*classicOp->getOperation(), replacementMap);
+  } else {
+    changeTargets(op.getTargets(), replacementMap);
+    if (!op.isNonUnitaryOperation()) {
+      changeControls(op.getControls(), replacementMap);
+    }
+  }
+}
 } // namespace
 
 void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
@@ -803,7 +818,7 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
         }
       }
       it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
+    } else {
       if ((*it)->isCompoundOperation()) {
         auto& compOp = dynamic_cast<CompoundOperation&>(**it);
         auto compOpIt = compOp.begin();
@@ -821,32 +836,13 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
             }
             compOpIt = compOp.erase(compOpIt);
           } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
+            changeQubits(**compOpIt, replacementMap);
             ++compOpIt;
           }
         }
+      } else {
+        changeQubits(**it, replacementMap);
       }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
-    } else {
       ++it;
     }
   }
-- 
2.43.0


From f2e43c5a713d0a336146f089e46bb6c1b91f989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 038/109] fix: defer measurements past controls, repeated
 measurements and conditions on zero

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 121 +++++++++++++++++----
 1 file changed, 98 insertions(+), 23 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a0f2637..9946cea 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -848,6 +848,52 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   }
 }
 
+namespace {
+/// check whether an operation might change the state of a qubit that is in one
+/// of the computational basis states
+bool changesQubit(const Operation& op, const Qubit qubit) {
+  if (!op.actsOn(qubit) || op.getType() == Barrier || op.getType() == Measure) {
+    return false;
+  }
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::any_of(
+        compOp.begin(), compOp.end(),
+        [qubit](const auto& g) { return changesQubit(*g, qubit); });
+  }
+  if (op.isClassicControlledOperation()) {
+    return changesQubit(
+        *dynamic_cast<const ClassicControlledOperation&>(op).getOperation(),
+        qubit);
+  }
+  const auto& targets = op.getTargets();
+  return !op.isDiagonalGate() &&
+         std::find(targets.begin(), targets.end(), qubit) != targets.end();
+}
+
+/// check whether a classic-controlled operation is applied for a given value of
+/// the classical bit or register it depends on
+bool isAppliedFor(const ClassicControlledOperation& op,
+                  const std::uint64_t value) {
+  const auto expected = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case Eq:
+    return value == expected;
+  case Neq:
+    return value != expected;
+  case Lt:
+    return value < expected;
+  case Leq:
+    return value <= expected;
+  case Gt:
+    return value > expected;
+  case Geq:
+    return value >= expected;
+  }
+  unreachable();
+}
+} // namespace
+
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
   // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
@@ -857,7 +903,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
+  std::unordered_map<Bit, Qubit> qubitsToAddMeasurements{};
   auto it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
@@ -873,6 +919,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
       // if this is the last operation, nothing has to be done
       if (*it == qc.back()) {
+        qubitsToAddMeasurements.erase(classics[0]);
         break;
       }
 
@@ -880,7 +927,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       const auto measurementBit = classics[0];
 
       // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+      qubitsToAddMeasurements[measurementBit] = measurementQubit;
 
       // remove the measurement from the vector of operations
       it = qc.erase(it);
@@ -889,17 +936,22 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       // any)
       auto opIt = it;
       auto currentInsertionPoint = it;
+      // whether the measured qubit has been changed since the measurement. The
+      // operations to be inserted have to come before any such change.
+      bool reused = false;
+      const auto advance = [&] {
+        reused = reused || changesQubit(**opIt, measurementQubit);
+        ++opIt;
+        if (!reused) {
+          currentInsertionPoint = opIt;
+        }
+      };
 
       // iterate over all subsequent operations
       while (opIt != qc.end()) {
         const auto* operation = opIt->get();
         if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
-            ++currentInsertionPoint;
-          }
-          ++opIt;
+          advance();
           continue;
         }
 
@@ -912,25 +964,22 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* measurement2 =
                 dynamic_cast<NonUnitaryOperation*>(opIt->get());
             measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
           const auto& classics2 = measurement2->getClassics();
 
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
+          // if the classical bit is overwritten, a breakpoint has been reached
+          if (std::find(classics2.begin(), classics2.end(), measurementBit) !=
+              classics2.end()) {
             break;
           }
 
-          ++currentInsertionPoint;
-          ++opIt;
+          advance();
           continue;
         }
 
         if (const auto* classicOp =
                 dynamic_cast<ClassicControlledOperation*>(opIt->get());
             classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
-          Bit cBit = 0;
+              Bit cBit = 0;
           if (const auto& controlRegister = classicOp->getControlRegister();
               controlRegister.has_value()) {
             assert(!classicOp->getControlBit().has_value());
@@ -950,10 +999,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           // if this is not the classical bit that is measured, continue
           if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
-              ++currentInsertionPoint;
-            }
-            ++opIt;
+            advance();
             continue;
           }
 
@@ -985,12 +1031,36 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           // determine the appropriate control to add
           auto controls = standardOp->getControls();
           const auto controlQubit = measurementQubit;
+          const auto appliedForOne = isAppliedFor(*classicOp, 1U);
+          const auto conditional = appliedForOne != isAppliedFor(*classicOp, 0U);
           const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
+              appliedForOne ? Control::Type::Pos : Control::Type::Neg;
+          const auto oppositeType =
+              appliedForOne ? Control::Type::Neg : Control::Type::Pos;
+          // the operation is never applied if its condition never holds or
+          // contradicts one of its controls
+          const auto neverApplied =
+              conditional ? controls.count({controlQubit, oppositeType}) != 0
+                          : !appliedForOne;
+          if (conditional) {
+            controls.emplace(controlQubit, controlType);
+          }
 
           const auto parameters = standardOp->getParameter();
 
+          // the operation is moved in front of all operations since the
+          // measured qubit has been changed, which must not affect it
+          const auto usedQubits = standardOp->getUsedQubits();
+          if (std::any_of(currentInsertionPoint, opIt, [&](const auto& op) {
+                return std::any_of(
+                    usedQubits.begin(), usedQubits.end(),
+                    [&op](const auto q) { return op->actsOn(q); });
+              })) {
+            throw std::runtime_error(
+                "A classic-controlled operation cannot be moved in front of "
+                "the operations that change the measured qubit it depends on.");
+          }
+
           // remove the classic-controlled operation
           // carefully handle iterator invalidation.
           // if the current insertion point is the same as the current
@@ -1008,6 +1078,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           if (insertionPointInvalidated) {
             currentInsertionPoint = opIt;
           }
+          if (neverApplied) {
+            continue;
+          }
 
           itInvalidated = (it >= currentInsertionPoint);
           // insert the new operation (invalidated all pointer onwards)
@@ -1025,6 +1098,8 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           opIt = currentInsertionPoint;
         }
       }
+      // `it` already points to the operation following the removed measurement
+      continue;
     }
     ++it;
   }
@@ -1032,7 +1107,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
     return;
   }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
+  for (const auto& [clbit, qubit] : qubitsToAddMeasurements) {
     qc.measure(qubit, clbit);
   }
   qc.initializeIOMapping();
-- 
2.43.0


From 548c9aa484ca7cbc90de01eaa6766c56a95729fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 039/109] fix: controls of global phase gates in decision
 diagrams

---
 src/dd/Operations.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..eafdddb 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -26,6 +26,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <random>
 #include <sstream>
@@ -154,8 +155,20 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    const auto phaseFactor = std::polar(1., phase);
+    if (op.isControlled()) {
+      // a controlled global phase is a (controlled) phase gate on any of its
+      // controls
+      auto controls = permutation.apply(op.getControls());
+      const auto control = *controls.begin();
+      controls.erase(controls.begin());
+      const auto mat = control.type == qc::Control::Type::Pos
+                           ? GateMatrix{1, 0, 0, phaseFactor}
+                           : GateMatrix{phaseFactor, 0, 0, 1};
+      return dd.makeGateDD(mat, controls, control.qubit);
+    }
     auto id = Package::makeIdent();
-    id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
+    id.w = dd.cn.lookup(phaseFactor);
     return id;
   }
 
-- 
2.43.0


From 13a61cb5bf4fdc995e59ad691a42ac1bfcdfa1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 040/109] fix: recursive functionality construction for empty
 and one-operation circuits

---
 src/dd/FunctionalityConstruction.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..892f0bf 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -15,6 +15,7 @@
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <stack>
@@ -121,18 +122,16 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
 
   auto permutation = qc.initialLayout;
 
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
-    dd.incRef(e);
-    return e;
+  auto e = Package::makeIdent();
+  if (!qc.empty()) {
+    std::stack<MatrixDD> s{};
+    const auto depth = std::max<std::size_t>(
+        1U, static_cast<std::size_t>(std::ceil(std::log2(qc.size()))));
+    buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
+    e = s.top();
+    s.pop();
   }
 
-  std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
-  buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-  auto e = s.top();
-  s.pop();
-
   // correct permutation if necessary
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
-- 
2.43.0


From a99fbd9336462bc9bb6a79258cd815dcf1a32cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 041/109] fix: off-diagonal entries of identity decision
 diagrams

---
 src/dd/Edge.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..66310e6 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,7 +43,7 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
+  if (isZeroTerminal()) {
     return c;
   }
 
@@ -356,10 +356,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From caf72cb77bc054b63e5ec7df0c53f19317f34fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 042/109] fix: partial traces of decision diagrams that skip
 levels

---
 include/mqt-core/dd/Package.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..2f08f9d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1577,8 +1577,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1611,9 +1611,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1632,15 +1631,13 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
     const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+        static_cast<Qubit>(v - std::count(eliminate.begin(),
+                                          eliminate.begin() + v, true));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From 99084c25d5cdf53b248d79ac4d3d375b5566957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 043/109] fix: the zero matrix is not close to the identity

---
 src/dd/Package.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..8d7bd24 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1042,6 +1042,10 @@ mEdge Package::partialTrace(const mEdge& a,
 bool Package::isCloseToIdentity(const mEdge& m, const fp tol,
                                 const std::vector<bool>& garbage,
                                 const bool checkCloseToOne) const {
+  // the zero matrix is diagonal, but not close to the identity
+  if (checkCloseToOne && m.isZeroTerminal()) {
+    return false;
+  }
   std::unordered_set<decltype(m.p)> visited{};
   visited.reserve(mUniqueTable.getNumActiveEntries());
   return isCloseToIdentityRecursive(m, visited, tol, garbage, checkCloseToOne);
-- 
2.43.0


From ab17f6beab560dc9d2367f1b273f050ded7698a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 044/109] fix: reduce garbage of terminal edges to magnitudes

---
 src/dd/Package.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 8d7bd24..44da5d9 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1182,6 +1182,12 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
        e.isTerminal())) {
     return e;
   }
+  if (e.isTerminal()) {
+    const auto res = vEdge{e.p, cn.lookup(ComplexNumbers::mag(e.w))};
+    incRef(res);
+    decRef(e);
+    return res;
+  }
   Qubit lowerbound = 0;
   for (std::size_t i = 0U; i < garbage.size(); ++i) {
     if (garbage[i]) {
@@ -1206,15 +1212,18 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
 
   // if we have only identities and no other nodes
   if (e.isIdentity()) {
     auto g = e;
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(e.w));
+    }
     for (auto i = 0U; i < garbage.size(); ++i) {
       if (garbage[i]) {
         if (regular) {
-- 
2.43.0


From ae88589ae31fdcb77290069b17568ede7823db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 045/109] fix: do not access an empty stack when transferring
 decision diagrams

---
 include/mqt-core/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 2f08f9d..37daf98 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1822,7 +1822,7 @@ public:
         if (mappedNode.find(edge.p) != mappedNode.end()) {
           continue;
         }
-        hasChild = edge.p == stack.top()->p;
+        hasChild = !stack.empty() && edge.p == stack.top()->p;
       }
 
       if (hasChild) {
-- 
2.43.0


From 50d41d521f6287ef4fae0c5fc95cbae06db4350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 046/109] fix: do not reuse Kronecker products on other levels

---
 include/mqt-core/dd/Package.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 37daf98..4d62faf 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,18 +1457,6 @@ private:
       }
     }
 
-    // check if we already computed the product before and return the result
-    auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
-      return {r->p, rWeight};
-    }
-
-    constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
-    std::array<CachedEdge<Node>, n> edge{};
-    for (auto i = 0U; i < n; ++i) {
-      edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
-    }
-
     // Increase the qubit index
     Qubit idx = x.p->v;
     if (incIdx) {
@@ -1484,6 +1472,21 @@ private:
         idx += static_cast<Qubit>(y.p->v + 1U);
       }
     }
+
+    // check if we already computed the product before and return the result.
+    // The level of the result depends on the number of qubits of `y`, which is
+    // not part of the key.
+    auto& computeTable = getKroneckerComputeTable<Node>();
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && r->p != nullptr && r->p->v == idx) {
+      return {r->p, rWeight};
+    }
+
+    constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
+    std::array<CachedEdge<Node>, n> edge{};
+    for (auto i = 0U; i < n; ++i) {
+      edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
+    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 74320aee35cf2573d263b58912904a69018c67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 047/109] fix: qubit order of permuted measurement outcomes

---
 src/dd/Package.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 44da5d9..b0db781 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -994,7 +994,8 @@ fp Package::fidelityOfMeasurementOutcomesRecursive(
       const auto binaryString = intToBinaryString(i, nQubits);
       std::string filteredString(permutation.size(), '0');
       for (const auto& [physical, logical] : permutation) {
-        filteredString[logical] = binaryString[physical];
+        filteredString[filteredString.size() - 1U - logical] =
+            binaryString[nQubits - 1U - physical];
       }
       idx = std::stoull(filteredString, nullptr, 2);
     }
-- 
2.43.0


From 8fa7c53488a514365bb727afc9dcbd0769da5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 048/109] fix: Kronecker products with matrices that skip their
 topmost qubits

---
 include/mqt-core/dd/Package.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 4d62faf..0cfd265 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1460,14 +1460,11 @@ private:
     // Increase the qubit index
     Qubit idx = x.p->v;
     if (incIdx) {
-      // use the given number of qubits if y is an identity
+      // use the given number of qubits since the topmost qubits of y may be
+      // skipped
       if constexpr (std::is_same_v<Node, mNode> ||
                     std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
+        idx += static_cast<Qubit>(yNumQubits);
       } else {
         idx += static_cast<Qubit>(y.p->v + 1U);
       }
-- 
2.43.0


From f90292ac997f4fd204478d1d8d70fbf7ad7f0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 049/109] fix: clear memory when resetting a memory manager

---
 src/dd/MemoryManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..38bb7f2 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -54,6 +55,9 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     chunks[0].resize(stats.numAllocated * entrySize_);
     ++numAllocations;
   }
+  // entries are expected to be zero-initialized (e.g., to have a reference
+  // count of zero) when they are handed out
+  std::fill(chunks[0].begin(), chunks[0].end(), std::byte{0});
 
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
-- 
2.43.0


From 1b7adddb5e70810bb9390b566af595b83baf1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 050/109] fix: invalidate all compute tables with collected
 nodes

---
 src/dd/Package.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index b0db781..82ef912 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
@@ -154,7 +157,7 @@ bool Package::garbageCollect(bool force) {
     densityNoise.clear();
     densityTrace.clear();
   }
-  return vCollect > 0 || mCollect > 0 || cCollect > 0;
+  return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
-- 
2.43.0


From bb3c9bbf1f23adaefea6403420c255c44e693e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 051/109] fix: keep the number of buckets when clearing a unary
 compute table

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..d69ba9c 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(stats.numBuckets, false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From d9fa85f08dacd369638e44fd5bdf6e9bbdd4afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 052/109] fix: release the reference to a reduced identity

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 82ef912..f08950b 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1150,6 +1150,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1240,6 +1241,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From 1c15fadd4c41f40601d9dffc6be1cd8f92fb1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 053/109] fix: do not apply the output permutation twice when
 sampling

---
 src/dd/Simulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..508bafa 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -142,9 +142,10 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       } else {
         // otherwise, we consider the output permutation for determining where
         // to measure the qubits to
+        // (which the state has already been adjusted to)
         for (const auto& [qubit, bit] : qc.outputPermutation) {
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+              bitstring[bitstring.size() - 1U - bit];
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From 06c0bc3428db109d87fca0bf3d13087873b3cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 054/109] fix: provide a bit for every qubit when sampling
 circuits without measurements

---
 src/dd/Simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 508bafa..9bb8b81 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -126,8 +126,10 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     dd.decRef(e);
 
     std::map<std::string, std::size_t> actualCounts{};
-    const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+    // without measurements, all qubits are measured
+    const auto numBits = hasMeasurements
+                             ? qc.getNcbits()
+                             : std::max(qc.getNqubits(), qc.getNcbits());
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
       if (hasMeasurements) {
-- 
2.43.0


From 5a44d12d4f3b02f8b6ca0ed4670848284de43f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 055/109] fix: sample qubits measured into several bits and
 bits measured several times

---
 src/dd/Simulation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 9bb8b81..f0835e7 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit)
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -135,7 +135,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
+        for (const auto& [bit, qubit] : measurementMap) {
           // measurement map specifies that the circuit `qubit` is measured into
           // a certain `bit`
           measurement[numBits - 1U - bit] =
-- 
2.43.0


From ffb618078b53965d9630c4dc3e47941bceb7e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 056/109] fix: report missing keys of permutations

---
 include/mqt-core/dd/Operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Operations.hpp b/include/mqt-core/dd/Operations.hpp
index 34c88d2..c997945 100644
--- a/include/mqt-core/dd/Operations.hpp
+++ b/include/mqt-core/dd/Operations.hpp
@@ -234,7 +234,7 @@ void changePermutation(DDType& on, qc::Permutation& from,
     auto it = from.find(i);
     if (it == from.end()) {
       throw std::runtime_error(
-          "[changePermutation] Key " + std::to_string(it->first) +
+          "[changePermutation] Key " + std::to_string(i) +
           " was not found in first permutation. This should never happen.");
     }
     auto current = it->second;
-- 
2.43.0


From 8449517181bb23a75f392e20c5ec26f974c0f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 057/109] fix: deserialize decision diagrams that only consist
 of a terminal

---
 include/mqt-core/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 0cfd265..82081c3 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1862,7 +1862,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // files without any nodes represent terminals
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From 7015afbac47cf78bc69c1ab6c2753097f8335d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 058/109] fix: reject states, matrices and gates that exceed
 the qubits of the package

---
 include/mqt-core/dd/Package.hpp |  7 ++++++
 src/dd/Package.cpp              | 44 +++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 82081c3..39c45a9 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1990,6 +1990,13 @@ private:
     if (index == -1) {
       return CachedEdge<Node>::zero();
     }
+    if (v >= nqubits) {
+      throw std::runtime_error(
+          "Serialized decision diagram contains qubit " + std::to_string(v) +
+          ", but current package configuration only supports up to " +
+          std::to_string(nqubits) +
+          " qubits. Please allocate a larger package instance.");
+    }
 
     std::array<CachedEdge<Node>, N> edges{};
     for (auto i = 0U; i < N; ++i) {
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index f08950b..4a227aa 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -161,6 +161,13 @@ bool Package::garbageCollect(bool force) {
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
+  if (n > nqubits) {
+    throw std::runtime_error{
+        "Requested density operator with " + std::to_string(n) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   auto f = dEdge::one();
   for (std::size_t p = 0; p < n; p++) {
     f = makeDDNode(static_cast<Qubit>(p),
@@ -196,6 +203,11 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
+  if (state.size() < n + start) {
+    throw std::runtime_error("Insufficient qubit states provided. Requested " +
+                             std::to_string(n + start) + ", but received " +
+                             std::to_string(state.size()));
+  }
   auto f = vEdge::one();
   for (std::size_t p = start; p < n + start; ++p) {
     if (!state[p]) {
@@ -217,9 +229,9 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
-  if (state.size() < n) {
+  if (state.size() < n + start) {
     throw std::runtime_error("Insufficient qubit states provided. Requested " +
-                             std::to_string(n) + ", but received " +
+                             std::to_string(n + start) + ", but received " +
                              std::to_string(state.size()));
   }
 
@@ -340,6 +352,13 @@ vEdge Package::makeStateFromVector(const CVec& stateVector) {
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
+  if (level >= nqubits) {
+    throw std::runtime_error{
+        "Requested state with " + std::to_string(level + 1U) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   const auto state =
       makeStateFromVector(stateVector.begin(), stateVector.end(), level);
   const vEdge e{state.p, cn.lookup(state.w)};
@@ -357,9 +376,9 @@ mEdge Package::makeGateDD(const GateMatrix& mat, const qc::Controls& controls,
                           const qc::Qubit target) {
   if (std::any_of(controls.begin(), controls.end(),
                   [this](const auto& c) {
-                    return c.qubit > static_cast<Qubit>(nqubits - 1U);
+                    return c.qubit >= nqubits;
                   }) ||
-      target > static_cast<Qubit>(nqubits - 1U)) {
+      target >= nqubits) {
     throw std::runtime_error{
         "Requested gate acting on qubit(s) with index larger than " +
         std::to_string(nqubits - 1U) +
@@ -434,10 +453,10 @@ mEdge Package::makeTwoQubitGateDD(const TwoQubitGateMatrix& mat,
   // sanity check
   if (std::any_of(controls.begin(), controls.end(),
                   [this](const auto& c) {
-                    return c.qubit > static_cast<Qubit>(nqubits - 1U);
+                    return c.qubit >= nqubits;
                   }) ||
-      target0 > static_cast<Qubit>(nqubits - 1U) ||
-      target1 > static_cast<Qubit>(nqubits - 1U)) {
+      target0 >= nqubits ||
+      target1 >= nqubits) {
     throw std::runtime_error{
         "Requested gate acting on qubit(s) with index larger than " +
         std::to_string(nqubits - 1U) +
@@ -550,7 +569,9 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
   }
 
   const auto& width = matrix[0].size();
-  if (length != width) {
+  if (std::any_of(matrix.begin(), matrix.end(), [&length](const auto& row) {
+        return row.size() != length;
+      })) {
     throw std::invalid_argument("Matrix must be square.");
   }
 
@@ -559,6 +580,13 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
+  if (level >= nqubits) {
+    throw std::runtime_error{
+        "Requested matrix with " + std::to_string(level + 1U) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   const auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
   return {matrixDD.p, cn.lookup(matrixDD.w)};
 }
-- 
2.43.0


From 0d91251c19f5fbe376aa448b9bdcee40f1267db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 059/109] fix: keep the buckets of the real number table sorted

---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..58c6ae7 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,9 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From d7637974179522d1e4dc11f28109742ecdb154d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 060/109] fix: keep a density matrix node on every level

---
 include/mqt-core/dd/Package.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 39c45a9..03e1455 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -488,10 +488,12 @@ public:
     }
 
     auto e = EdgeType<Node>::normalize(p, edges, memoryManager, cn);
-    if constexpr (std::is_same_v<Node, mNode> || std::is_same_v<Node, dNode>) {
+    if constexpr (std::is_same_v<Node, mNode>) {
       if (!e.isTerminal()) {
         const auto& es = e.p->e;
-        // Check if node resembles the identity. If so, skip it.
+        // Check if node resembles the identity. If so, skip it. Density
+        // matrices keep a node on every level since applying noise, measuring,
+        // and taking the (unnormalized) trace rely on it.
         if ((es[0].p == es[3].p) &&
             (es[0].w.exactlyOne() && es[1].w.exactlyZero() &&
              es[2].w.exactlyZero() && es[3].w.exactlyOne())) {
-- 
2.43.0


From 540b2526223948285a4b9bfa1d582b48e0ffebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 061/109] fix: compute the trace of density matrices whose edge
 is tagged

---
 include/mqt-core/dd/Package.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 03e1455..459547e 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1538,6 +1538,12 @@ public:
       return static_cast<ComplexValue>(a.w);
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
+    if constexpr (std::is_same_v<Node, dNode>) {
+      // the pointer of a density matrix edge may be tagged
+      auto aligned = a;
+      dEdge::alignDensityEdge(aligned);
+      return trace(aligned, eliminate, numQubits).w;
+    }
     return trace(a, eliminate, numQubits).w;
   }
 
-- 
2.43.0


From e29b5ed281538111da996105f6d8017f14992c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 062/109] fix: distinguish density matrix nodes by their flags
 in compute tables

---
 include/mqt-core/dd/ComputeTable.hpp | 31 +++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..8386b0f 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -20,6 +20,7 @@
 #include "ir/Definitions.hpp"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iostream>
 #include <stdexcept>
@@ -111,7 +112,7 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result};
+    table[key] = {withFlags(leftOperand), withFlags(rightOperand), result};
   }
 
   /**
@@ -132,10 +133,10 @@ public:
     }
 
     auto& entry = table[key];
-    if (entry.leftOperand != leftOperand) {
+    if (entry.leftOperand != withFlags(leftOperand)) {
       return result;
     }
-    if (entry.rightOperand != rightOperand) {
+    if (entry.rightOperand != withFlags(rightOperand)) {
       return result;
     }
 
@@ -170,6 +171,30 @@ public:
   }
 
 private:
+  /**
+   * @brief Make the temporary flags of a density matrix node part of an operand
+   * @details The flags change which matrix a node stands for. Hence, they have
+   * to match when looking up the result of an operation.
+   * @param operand The operand
+   * @return The operand with the flags being part of the pointer to its node
+   */
+  template <class OperandType>
+  [[nodiscard]] static OperandType withFlags(OperandType operand) {
+    const auto tag = [](dNode*& p) {
+      if (!dNode::isTerminal(p)) {
+        p = reinterpret_cast<dNode*>(
+            reinterpret_cast<std::uintptr_t>(p) |
+            dNode::getDensityMatrixTempFlags(p->flags));
+      }
+    };
+    if constexpr (std::is_same_v<OperandType, dNode*>) {
+      tag(operand);
+    } else if constexpr (std::is_same_v<OperandType, dCachedEdge>) {
+      tag(operand.p);
+    }
+    return operand;
+  }
+
   /// The actual table storing the entries
   std::vector<Entry> table;
   /// Dynamic bitset to mark valid entries
-- 
2.43.0


From d1cd5ef50db400799acd0cfb4994e2f98651576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 063/109] fix: use the damping probability for multi-qubit
 amplitude damping

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..609a379 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From f957b114264ac07726c2693c06a30ac0c205ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 064/109] fix: do not share amplitude damping matrices between
 noise models

---
 src/dd/NoiseFunctionality.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 609a379..e7cd04e 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -141,6 +141,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  // The cache belongs to the package, but the matrices for amplitude damping
+  // depend on the probabilities of this particular noise model.
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
-- 
2.43.0


From 390c6fdae515e70b474cda3ed07b0aaf6afd40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 065/109] fix: keep the drawn noise when amplitude damping
 occurs

---
 include/mqt-core/dd/NoiseFunctionality.hpp |  2 +-
 src/dd/NoiseFunctionality.cpp              | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/mqt-core/dd/NoiseFunctionality.hpp b/include/mqt-core/dd/NoiseFunctionality.hpp
index 564eac3..b6dc58c 100644
--- a/include/mqt-core/dd/NoiseFunctionality.hpp
+++ b/include/mqt-core/dd/NoiseFunctionality.hpp
@@ -95,7 +95,7 @@ protected:
                                      const GateMatrix& matrix) const;
 
   mEdge generateNoiseOperation(mEdge operation, qc::Qubit target,
-                               std::mt19937_64& generator,
+                               const std::vector<fp>& draws,
                                bool amplitudeDamping, bool multiQubitOperation);
 
   [[nodiscard]] qc::OpType returnNoiseOperation(NoiseOperations noiseOperation,
diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index e7cd04e..ed97f22 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -113,7 +113,15 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
-    auto stackedOperation = generateNoiseOperation(operation, target, generator,
+    // One draw per noise effect. The same draws are used whether or not
+    // amplitude damping occurs since its probability depends on them.
+    std::vector<fp> draws(noiseEffects.size());
+    for (std::size_t i = 0; i < draws.size(); ++i) {
+      if (noiseEffects[i] != AmplitudeDamping) {
+        draws[i] = dist(generator);
+      }
+    }
+    auto stackedOperation = generateNoiseOperation(operation, target, draws,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
 
@@ -123,8 +131,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
-                                                true, multiQubitOperation);
+      stackedOperation = generateNoiseOperation(operation, target, draws, true,
+                                                multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
     tmp.w = Complex::one();
@@ -158,13 +166,14 @@ mEdge StochasticNoiseFunctionality::stackOperation(
 }
 
 mEdge StochasticNoiseFunctionality::generateNoiseOperation(
-    mEdge operation, const qc::Qubit target, std::mt19937_64& generator,
+    mEdge operation, const qc::Qubit target, const std::vector<fp>& draws,
     const bool amplitudeDamping, const bool multiQubitOperation) {
-  for (const auto& noiseType : noiseEffects) {
+  for (std::size_t i = 0; i < noiseEffects.size(); ++i) {
+    const auto noiseType = noiseEffects[i];
     const auto effect = noiseType == AmplitudeDamping
                             ? getAmplitudeDampingOperationType(
                                   multiQubitOperation, amplitudeDamping)
-                            : returnNoiseOperation(noiseType, dist(generator),
+                            : returnNoiseOperation(noiseType, draws[i],
                                                    multiQubitOperation);
     switch (effect) {
     case (qc::I): {
-- 
2.43.0


From 08492987076edf92723398be019dafa543efce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 066/109] fix: do not access the targets of a global phase in
 the ZX construction

---
 src/zx/FunctionalityConstruction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..b6a0930 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -316,15 +316,16 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // a global phase does not have any targets
+  if (op->getType() == qc::OpType::GPhase && !op->isControlled()) {
+    diag.addGlobalPhase(parseParam(op.get(), 0));
+    return it + 1;
+  }
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
-- 
2.43.0


From eead950bd92a1242ed6f089ccda8a75cd67f9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 067/109] fix: use the right sign of the angles of XXplusYY in
 the ZX construction

---
 src/zx/FunctionalityConstruction.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index b6a0930..dc0b49d 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -217,8 +217,12 @@ void FunctionalityConstruction::addXXplusYY(
     ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
-  addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
+  if (unconvertedBeta.has_value()) {
+    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+  } else {
+    addRz(diag, -beta, qubit1, qubits);
+  }
+  addRz(diag, PiExpression(PiRational(-1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
@@ -229,13 +233,8 @@ void FunctionalityConstruction::addXXplusYY(
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
-  } else {
-    addRz(diag, -beta, qubit1, qubits);
-  }
-
-  addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
+  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
 }
 
 void FunctionalityConstruction::addXXminusYY(
-- 
2.43.0


From 0ded64101e4fb52ce0143d733b6825f450596fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 068/109] fix: respect negative controls in the ZX construction

---
 src/zx/FunctionalityConstruction.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index dc0b49d..369958f 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -13,6 +13,7 @@
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/Control.hpp"
 #include "ir/operations/Expression.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/SymbolicOperation.hpp"
@@ -35,8 +36,11 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
   if (it + 1 != end && it + 2 != end) {
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
-    if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
-        op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+    const auto isCnot = [](const auto& op) {
+      return op->getType() == qc::OpType::X && op->getNcontrols() == 1 &&
+             op->getControls().begin()->type == qc::Control::Type::Pos;
+    };
+    if (isCnot(*it) && isCnot(op1) && isCnot(op2)) {
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -321,6 +325,16 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // negative controls are positive controls surrounded by X gates
+  const auto flipNegativeControls = [&] {
+    for (const auto& [q, type] : op->getControls()) {
+      if (type == qc::Control::Type::Neg) {
+        addXSpider(diag, static_cast<Qubit>(p.at(q)), qubits,
+                   PiExpression(PiRational(1, 1)));
+      }
+    }
+  };
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
@@ -508,6 +522,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     const auto ctrl =
         static_cast<Qubit>(p.at((*op->getControls().begin()).qubit));
+    flipNegativeControls();
     switch (op->getType()) { // TODO: any gate can be controlled
     case qc::OpType::X:
       // check if swap
@@ -566,6 +581,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
         ctrl1 = static_cast<Qubit>(p.at(ctrl.qubit));
       }
     }
+    flipNegativeControls();
     switch (op->getType()) {
     case qc::OpType::X:
       addCcx(diag, ctrl0, ctrl1, target, qubits);
@@ -585,6 +601,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
                       std::to_string(op->getNcontrols()) + " ctrls)" +
                       qc::toString(op->getType()));
   }
+  flipNegativeControls();
   return it + 1;
 }
 
-- 
2.43.0


From bd218900550d0454377f071639fa59915a13c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 069/109] fix: include the X gate of ECR in the ZX construction

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 369958f..3bf23bc 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -473,7 +473,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From 1dd2f84f8fb113af693e17c5fbebdc528fbb4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 070/109] fix: reject doubly-controlled global phases in the ZX
 construction

---
 src/zx/FunctionalityConstruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 3bf23bc..58bc13f 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -568,7 +568,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Controlled Operation: " +
                         qc::toString(op->getType()));
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     // three-qubit controlled gates (ccx or ccz)
     Qubit ctrl0 = 0;
     Qubit ctrl1 = 0;
@@ -712,7 +712,7 @@ bool FunctionalityConstruction::transformableToZX(const qc::Operation* op) {
     default:
       return false;
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     switch (op->getType()) {
     case qc::OpType::X:
     case qc::OpType::Z:
-- 
2.43.0


From a7c402fbb34a5fe419d928d82b24a0f50bc7a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 071/109] fix: convert very small and very large angles to
 fractions of pi without overflow

---
 src/zx/Rational.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..e252aa2 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -26,14 +26,13 @@ PiRational::PiRational(double val) {
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
   if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
-    frac = Rational(1, denom);
+    frac = Rational(1, BigInt(nearest));
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val -= 2 * std::trunc(val / 2);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
-- 
2.43.0


From 3276e6d47851d643255a18ab9221ad2c1ecb38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 072/109] fix: do not reverse the operands when subtracting or
 dividing an integer by a PiRational

---
 include/mqt-core/zx/Rational.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..fdfc807 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs) - rhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,8 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs * rhs.getDenom(), rhs.getNum());
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
-- 
2.43.0


From aeff6975343423fe7904ecda418655486c2f348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 073/109] fix: reduce every PiRational to the interval (-1, 1]

---
 src/zx/Rational.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index e252aa2..16b7af6 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -91,10 +91,16 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    const BigInt denom = getDenom();
+    const BigInt period = 2 * denom;
+    BigInt num = getNum() % period;
+    if (num > denom) {
+      num -= period;
+    } else if (num <= -denom) {
+      num += period;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From 1e7b08a42807fff5df9e6a068f23617fd8069fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 074/109] fix: do not report wires with Hadamard edges as
 identity

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..e70c247 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From 0b546cc63e9568506311694586d0e4c59262b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 075/109] fix: connect the wires of concatenated diagrams by
 their position

---
 src/zx/ZXDiagram.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index e70c247..b9834c4 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <iterator>
 #include <optional>
 #include <unordered_map>
 #include <unordered_set>
@@ -264,7 +265,10 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
           addEdge(newVs[i], newVs[to], type);
         }
       } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
+        const auto inputIt =
+            std::find(rhs.inputs.begin(), rhs.inputs.end(), to);
+        const auto outV = outputs[static_cast<std::size_t>(
+            std::distance(rhs.inputs.begin(), inputIt))];
         for (const auto& [interior_v, interior_type] :
              edges[outV]) { // redirect edges going to outputs
           if (interior_type == type) {
-- 
2.43.0


From f60727e894b874533351b1f39f6aab981f2ef89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 076/109] fix: do not fuse the phase of a gadget into a
 boundary vertex

---
 src/zx/Rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..2143b26 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
-- 
2.43.0


From 4c3778c22e00de928127bb0d2858e82f4e4af8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 077/109] fix: only fuse phase gadgets with the same neighbors
 and a single leaf

---
 src/zx/Rules.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 2143b26..81187ac 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -345,6 +345,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
@@ -356,7 +357,11 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
 
       if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+        if (phaseSpider.has_value()) {
+          // more than one leaf: the remaining neighbors cannot match
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
@@ -370,9 +375,10 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
     }
 
-    if (foundGadget) {
+    if (foundGadget && phaseSpider.has_value()) {
       break;
     }
+    foundGadget = false;
   }
 
   if (!foundGadget || !phaseSpider.has_value()) {
-- 
2.43.0


From 3e2f7bf5db561e138796f5d8185a3f3ce7a70634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 078/109] fix: keep the number of edges when removing parallel
 or missing edges

---
 src/zx/ZXDiagram.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index b9834c4..4304f37 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -90,9 +90,12 @@ void ZXDiagram::addEdgeParallelAware(const Vertex from, const Vertex to,
 }
 
 void ZXDiagram::removeEdge(const Vertex from, const Vertex to) {
+  // parallel edges are removed together
+  const auto removed = edges[from].size();
   removeHalfEdge(from, to);
+  // a loop is stored as two entries of the same vertex
+  nedges -= (removed - edges[from].size()) / (from == to ? 2 : 1);
   removeHalfEdge(to, from);
-  --nedges;
 }
 
 void ZXDiagram::removeHalfEdge(const Vertex from, const Vertex to) {
-- 
2.43.0


From 27a08c13bf37c27b2745cf12d6bb27593ed1fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 079/109] fix: provide a row for every vertex index in the
 adjacency matrix

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 4304f37..20d6578 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -397,7 +397,8 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  // vertices keep their index when other vertices are deleted
+  gf2Mat adjMat{vertices.size(), gf2Vec(vertices.size(), false)};
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From ee0c8cfa611439e9b57472077d4dd7e99815f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 080/109] fix: number added qubits consecutively

---
 src/zx/ZXDiagram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 20d6578..73d1f69 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -126,10 +126,10 @@ Vertex ZXDiagram::addVertex(const Qubit qubit, const Col col,
 }
 
 void ZXDiagram::addQubit() {
-  auto in = addVertex(static_cast<zx::Qubit>(getNQubits()) + 1, 0,
-                      PiExpression(), VertexType::Boundary);
-  auto out = addVertex(static_cast<zx::Qubit>(getNQubits()) + 1, 0,
-                       PiExpression(), VertexType::Boundary);
+  auto in = addVertex(static_cast<zx::Qubit>(getNQubits()), 0, PiExpression(),
+                      VertexType::Boundary);
+  auto out = addVertex(static_cast<zx::Qubit>(getNQubits()), 0, PiExpression(),
+                       VertexType::Boundary);
   inputs.emplace_back(in);
   outputs.emplace_back(out);
 }
-- 
2.43.0


From 48999ec3a43f056c4e8b5bbaa76480bd2ab5177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 081/109] fix: do not modify the edges of a removed vertex
 while iterating over them

---
 src/zx/ZXDiagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 73d1f69..ec253d7 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -144,6 +144,9 @@ void ZXDiagram::removeVertex(const Vertex toRemove) {
   vertices[toRemove].reset();
   --nvertices;
 
+  // loops are stored as two entries of the vertex itself
+  removeEdge(toRemove, toRemove);
+
   for (const auto& [to, _] : incidentEdges(toRemove)) {
     removeHalfEdge(to, toRemove);
     --nedges;
-- 
2.43.0


From 522f04899af233a9ce70394d07d00d7dee390184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 082/109] fix: allow iterating over the edges of a diagram
 without vertices

---
 src/zx/Utils.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..aaa0d17 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -63,8 +63,7 @@ void Vertices::VertexIterator::nextValidVertex() {
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts)
-    : v(0), currentPos(es[0].begin()), edgesPos(es.begin()), edges(es),
-      vertices(verts) {
+    : v(0), edgesPos(es.begin()), edges(es), vertices(verts) {
   if (!vertices.empty()) {
     while (v < edges.size() && !vertices[v].has_value()) {
       ++v;
@@ -78,7 +77,7 @@ Edges::EdgeIterator::EdgeIterator(
       edgesPos = edges.end();
     }
   } else {
-    currentPos = edges.back().end();
+    // there are no edges to point to
     edgesPos = edges.end();
     v = edges.size();
   }
@@ -89,7 +88,9 @@ Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::optional<VertexData>>& verts, const Vertex vertex)
     : v(vertex), edges(es), vertices(verts) {
   if (v >= edges.size()) {
-    currentPos = edges.back().end();
+    if (!edges.empty()) {
+      currentPos = edges.back().end();
+    }
     edgesPos = edges.end();
     this->v = edges.size();
   } else {
-- 
2.43.0


From f217f500ee174b5441aa135f99e3f6fdbbc671de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 083/109] fix: return the right positions when incrementing ZX
 iterators

---
 src/zx/Utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index aaa0d17..b1749c6 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -29,19 +29,19 @@ Vertices::VertexIterator::VertexIterator(
 }
 // Prefix increment
 Vertices::VertexIterator Vertices::VertexIterator::operator++() {
-  Vertices::VertexIterator it = *this;
   ++currentPos;
   ++v;
   nextValidVertex();
-  return it;
+  return *this;
 }
 
 // Postfix increment
 Vertices::VertexIterator Vertices::VertexIterator::operator++(int) {
+  Vertices::VertexIterator it = *this;
   ++currentPos;
   ++v;
   nextValidVertex();
-  return *this;
+  return it;
 }
 
 bool operator==(const Vertices::VertexIterator& a,
@@ -101,10 +101,9 @@ Edges::EdgeIterator::EdgeIterator(
 
 // Prefix increment
 Edges::EdgeIterator Edges::EdgeIterator::operator++() {
-  Edges::EdgeIterator it = *this;
-  currentPos++;
+  ++currentPos;
   checkNextVertex();
-  return it;
+  return *this;
 }
 
 void Edges::EdgeIterator::checkNextVertex() {
@@ -135,9 +134,10 @@ void Edges::EdgeIterator::checkNextVertex() {
 }
 // Postfix increment
 Edges::EdgeIterator Edges::EdgeIterator::operator++(int) {
+  Edges::EdgeIterator it = *this;
   ++currentPos;
   checkNextVertex();
-  return *this;
+  return it;
 }
 
 bool operator==(const Edges::EdgeIterator& a, const Edges::EdgeIterator& b) {
-- 
2.43.0


From aa4e1311061059523abda7b24e3dc05445d180a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 084/109] fix: round phases close to -pi to pi

---
 src/zx/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index b1749c6..8ccce29 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -169,7 +169,8 @@ void roundToClifford(PiExpression& expr, const fp tolerance) {
     expr.setConst(PiRational(1, 2));
   } else if (expr.getConst().isCloseDivPi(-0.5, tolerance)) {
     expr.setConst(PiRational(-1, 2));
-  } else if (expr.getConst().isCloseDivPi(1, tolerance)) {
+  } else if (expr.getConst().isCloseDivPi(1, tolerance) ||
+             expr.getConst().isCloseDivPi(-1, tolerance)) {
     expr.setConst(PiRational(1, 1));
   }
 }
-- 
2.43.0


From cda3ee3270155467ddbfaf68c1b46d3ecf7c540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 085/109] fix: do not swap the operands of >= and <= for
 locations

---
 include/mqt-core/na/entities/Location.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/na/entities/Location.hpp b/include/mqt-core/na/entities/Location.hpp
index f2e36aa..5e655b1 100644
--- a/include/mqt-core/na/entities/Location.hpp
+++ b/include/mqt-core/na/entities/Location.hpp
@@ -105,14 +105,14 @@ struct Location final {
   /// @param other The location to compare with.
   /// @return True if this location is greater than or equal to the other
   [[nodiscard]] auto operator>=(const Location& other) const -> bool {
-    return !(other < *this);
+    return !(*this < other);
   }
 
   /// Compares two locations for less than or equal.
   /// @param other The location to compare with.
   /// @return True if this location is less than or equal to the other location,
   [[nodiscard]] auto operator<=(const Location& other) const -> bool {
-    return *this >= other;
+    return !(other < *this);
   }
 
   /// Computes the Euclidean distance between this location and the given
-- 
2.43.0


From 02a314634ea6395d434fbf8ec8ee79d7a2fd7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 086/109] fix: print all atoms with the same initial location

---
 src/na/NAComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..d47dbc5 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -55,7 +55,7 @@ auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
 }
 auto NAComputation::toString() const -> std::string {
   std::stringstream ss;
-  std::map<Location, const Atom*> initialLocationsAsc;
+  std::multimap<Location, const Atom*> initialLocationsAsc;
   for (const auto& [atom, loc] : initialLocations_) {
     initialLocationsAsc.emplace(loc, atom);
   }
-- 
2.43.0


From 1833bde71b1eeee194ed8f8c91315d045c351960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 087/109] fix: report atoms listed twice in load and store
 operations without locations

---
 src/na/NAComputation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index d47dbc5..221d3bb 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -95,6 +95,11 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
       //===----------------------------------------------------------------===//
       const auto& shuttlingOp = op->as<ShuttlingOp>();
       const auto& opAtoms = shuttlingOp.getAtoms();
+      if (std::unordered_set<const Atom*>(opAtoms.begin(), opAtoms.end())
+              .size() != opAtoms.size()) {
+        ss << "Error in op number " << counter << " (two atoms identical)\n";
+        return {false, ss.str()};
+      }
       if (shuttlingOp.is<LoadOp>()) {
         //===-----------------------------------------------------------------//
         // Load Operations
@@ -132,11 +137,6 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
           const auto* a = opAtoms[i];
           for (std::size_t j = i + 1; j < opAtoms.size(); ++j) {
             const auto* b = opAtoms[j];
-            if (a == b) {
-              ss << "Error in op number " << counter
-                 << " (two atoms identical)\n";
-              return {false, ss.str()};
-            }
             const auto& s1 = currentLocations[a];
             const auto& s2 = currentLocations[b];
             const auto& e1 = targetLocations[i];
-- 
2.43.0


From f22e57cc91b55f08012249a0c64321f433cae564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 088/109] fix: only cancel tensor products of single-qubit
 gates qubit by qubit in layers

---
 src/datastructures/Layer.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..4c0a76f 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -12,7 +12,9 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
@@ -23,6 +25,21 @@
 
 namespace qc {
 
+namespace {
+/// Whether the operation is a tensor product of single-qubit gates. Only such an
+/// operation cancels with its inverse on every qubit separately.
+auto isTensorProductOfSingleQubitGates(const Operation& op) -> bool {
+  if (op.isCompoundOperation()) {
+    const auto& compound = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(compound.cbegin(), compound.cend(),
+                       [](const auto& subOp) {
+                         return isTensorProductOfSingleQubitGates(*subOp);
+                       });
+  }
+  return op.isSingleQubitGate();
+}
+} // namespace
+
 auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
     -> void {
   const auto nQubits = qc.getNqubits();
@@ -70,7 +87,10 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
         // lookahead
-        if (current->getOperation()->isInverseOf(
+        if (isTensorProductOfSingleQubitGates(*current->getOperation()) &&
+            isTensorProductOfSingleQubitGates(
+                *lookahead[qubit]->getOperation()) &&
+            current->getOperation()->isInverseOf(
                 *lookahead[qubit]->getOperation()) &&
             (currentGroup[qubit].empty() ||
              !(currentGroup[qubit][0]->getOperation())
-- 
2.43.0


From 865837f5735f7c0128276861c81f1fcdb0ac8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 089/109] fix: do not let inverse operations in a layer block
 each other or the operations before them

---
 src/datastructures/Layer.cpp | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 4c0a76f..850bb13 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -60,10 +60,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // the predecessor of the current group members
   std::vector predecessorGroup(nQubits,
                                std::vector<std::shared_ptr<DAGVertex>>());
-  // all operations acting on a qubit (processed so far) excluding
-  // constructive and destructive operations
-  std::vector qubitOperations(nQubits,
-                              std::vector<std::shared_ptr<DAGVertex>>());
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
@@ -96,24 +92,17 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
              !(currentGroup[qubit][0]->getOperation())
                   ->commutesAtQubit(*current->getOperation(), qubit))) {
           // here: the current operation is the inverse of the lookahead
-          // add an enabling edge from the lookahead to all operations on this
-          // qubit including the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          // the current operation must not be executed before the operations
+          // preceding it: until the lookahead is executed they would have to
+          // be disabled, but the lookahead may depend on them via other qubits
+          if (!constructive[qubit].empty()) {
+            constructive[qubit].back()->addEnabledSuccessor(current);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          for (const auto& predecessor : currentGroup[qubit]) {
+            predecessor->addEnabledSuccessor(current);
           }
           // add the lookahead to the constructive group
           constructive[qubit].emplace_back(lookahead[qubit]);
-          // add a disabling edge to all operations on this qubit including
-          // the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
           // add the current vertex to the destructive group
@@ -156,7 +145,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
           }
           // add the current vertex to the current group
           currentGroup[qubit].emplace_back(current);
-          qubitOperations[qubit].emplace_back(current);
         }
       }
     }
@@ -193,7 +181,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       }
       // add the current vertex to the current group
       currentGroup[qubit].emplace_back(current);
-      qubitOperations[qubit].emplace_back(current);
     }
   }
 }
-- 
2.43.0


From cc47237c47f28ad72a3cb768c29e342ea0f6a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 090/109] fix: do not put the last operation of a qubit in a
 group with an equal one

---
 src/datastructures/Layer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 850bb13..9530580 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -167,9 +167,13 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       if (!currentGroup[qubit].empty() and
           (!commutable or
            !(currentGroup[qubit][0]->getOperation())
-                ->commutesAtQubit(*current->getOperation(), qubit))) {
+                ->commutesAtQubit(*current->getOperation(), qubit) or
+           std::find_if(currentGroup[qubit].cbegin(),
+                        currentGroup[qubit].cend(), [&current](const auto& v) {
+                          return *v->getOperation() == *current->getOperation();
+                        }) != currentGroup[qubit].cend())) {
         // here: the current operation does not commute with the current
-        // group members and is not the inverse of the lookahead
+        // group members (or is already one of them)
         // --> start a new group
         predecessorGroup[qubit].clear();
         predecessorGroup[qubit] = currentGroup[qubit];
-- 
2.43.0


From b2488f2ff10aaecb9ee461941995844cfc3dc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 091/109] fix: keep the executable set of a layer up to date
 when the layer is moved or copied

---
 include/mqt-core/datastructures/Layer.hpp | 6 ++++--
 src/datastructures/Layer.cpp              | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/datastructures/Layer.hpp b/include/mqt-core/datastructures/Layer.hpp
index 0db8864..4248ac3 100644
--- a/include/mqt-core/datastructures/Layer.hpp
+++ b/include/mqt-core/datastructures/Layer.hpp
@@ -134,7 +134,9 @@ public:
   };
 
 protected:
-  ExecutableSet executableSet;
+  // on the heap, since the vertices keep a pointer to it when the layer moves
+  std::shared_ptr<ExecutableSet> executableSet =
+      std::make_shared<ExecutableSet>();
   auto constructDAG(const QuantumComputation& qc, bool commutable) -> void;
 
 public:
@@ -160,7 +162,7 @@ public:
     constructDAG(qc, commutable);
   }
   [[nodiscard]] auto getExecutableSet() const -> const ExecutableSet& {
-    return executableSet;
+    return *executableSet;
   }
   [[nodiscard]] auto constructInteractionGraph(OpType opType,
                                                std::size_t nControls) const
diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 9530580..b17ae3a 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -63,7 +63,7 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
-    const auto vertex = DAGVertex::create(op.get(), executableSet);
+    const auto vertex = DAGVertex::create(op.get(), *executableSet);
     // iterate over all qubits the operation acts on
     for (const auto& qubit : op->getUsedQubits()) {
       // check whether the lookahead is empty
@@ -225,7 +225,7 @@ auto Layer::constructInteractionGraph(const OpType opType,
     throw std::invalid_argument(ss.str());
   }
   InteractionGraph graph;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     const auto& gate = vertex->getOperation();
     if (gate->getType() == opType && gate->getNcontrols() == nControls) {
       const auto& usedQubits = gate->getUsedQubits();
@@ -243,7 +243,7 @@ auto Layer::getExecutablesOfType(const OpType opType,
                                  const std::size_t nControls) const
     -> std::vector<std::shared_ptr<DAGVertex>> {
   std::vector<std::shared_ptr<DAGVertex>> executables;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     if ((vertex->getOperation())->getType() == opType and
         (vertex->getOperation())->getNcontrols() == nControls) {
       executables.emplace_back(vertex);
-- 
2.43.0


From 1862768788ac4fc44c9b7137a38dae2eb42a748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 092/109] fix: do not commute operations with barriers

---
 src/ir/operations/StandardOperation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 0dd10fe..84757dd 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -497,6 +497,10 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   if (!actsOn(qubit) || !other.actsOn(qubit)) {
     return true;
   }
+  // nothing may be moved across a barrier
+  if (type == Barrier || other.getType() == Barrier) {
+    return false;
+  }
   if (controls.find(qubit) != controls.end()) {
     // if this is controlled on the given qubit
     if (const auto& controls2 = other.getControls();
-- 
2.43.0


From da8270707af0c26fafe0267bf08dab62cc93c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 093/109] fix: do not commute symbolic operations with several
 parameters

---
 src/ir/operations/StandardOperation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 84757dd..03259c1 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -551,7 +551,8 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
-  return type == other.getType() && targets == other.getTargets() &&
+  return !isSymbolicOperation() && !other.isSymbolicOperation() &&
+         type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
 }
 
-- 
2.43.0


From c8cfe251e80f66a6116b47705a518b09638bacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 094/109] fix: respect the dependencies via classical bits in
 layers

---
 src/datastructures/Layer.cpp | 54 ++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index b17ae3a..48f91cb 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -12,15 +12,19 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/ClassicControlledOperation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/NonUnitaryOperation.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <stdexcept>
+#include <unordered_map>
 #include <vector>
 
 namespace qc {
@@ -38,6 +42,31 @@ auto isTensorProductOfSingleQubitGates(const Operation& op) -> bool {
   }
   return op.isSingleQubitGate();
 }
+/// Collects the classical bits that the operation reads and writes.
+auto collectClassicalBits(const Operation& op, std::set<Bit>& read,
+                          std::set<Bit>& written) -> void {
+  if (op.isCompoundOperation()) {
+    for (const auto& subOp : dynamic_cast<const CompoundOperation&>(op)) {
+      collectClassicalBits(*subOp, read, written);
+    }
+  } else if (op.isClassicControlledOperation()) {
+    const auto& controlled =
+        dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& reg = controlled.getControlRegister(); reg.has_value()) {
+      for (Bit i = 0; i < reg->getSize(); ++i) {
+        read.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = controlled.getControlBit(); bit.has_value()) {
+      read.emplace(*bit);
+    }
+    collectClassicalBits(*controlled.getOperation(), read, written);
+  } else if (op.isNonUnitaryOperation()) {
+    const auto& classics =
+        dynamic_cast<const NonUnitaryOperation&>(op).getClassics();
+    written.insert(classics.cbegin(), classics.cend());
+  }
+}
 } // namespace
 
 auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
@@ -60,10 +89,35 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // the predecessor of the current group members
   std::vector predecessorGroup(nQubits,
                                std::vector<std::shared_ptr<DAGVertex>>());
+  // the last operation writing each classical bit and those reading it since
+  std::unordered_map<Bit, std::shared_ptr<DAGVertex>> lastWriter;
+  std::unordered_map<Bit, std::vector<std::shared_ptr<DAGVertex>>> readers;
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
     const auto vertex = DAGVertex::create(op.get(), *executableSet);
+    // respect the dependencies via classical bits
+    std::set<Bit> read;
+    std::set<Bit> written;
+    collectClassicalBits(*op, read, written);
+    for (const auto& bit : read) {
+      if (lastWriter[bit] != nullptr) {
+        lastWriter[bit]->addEnabledSuccessor(vertex);
+      }
+    }
+    for (const auto& bit : written) {
+      if (lastWriter[bit] != nullptr) {
+        lastWriter[bit]->addEnabledSuccessor(vertex);
+      }
+      for (const auto& reader : readers[bit]) {
+        reader->addEnabledSuccessor(vertex);
+      }
+      readers[bit].clear();
+      lastWriter[bit] = vertex;
+    }
+    for (const auto& bit : read) {
+      readers[bit].emplace_back(vertex);
+    }
     // iterate over all qubits the operation acts on
     for (const auto& qubit : op->getUsedQubits()) {
       // check whether the lookahead is empty
-- 
2.43.0


From c6c2315047f01ee96fa743cf772ef2a453737b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 095/109] fix: do not move inverse operations across barriers
 in layers

---
 src/datastructures/Layer.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 48f91cb..c6f4a5f 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -168,9 +168,12 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
           for (const auto& constructiveOp : constructive[qubit]) {
             constructiveOp->addEnabledSuccessor(current);
           }
-          // add a disabling edge from each destructive operation
-          for (const auto& destructiveOp : destructive[qubit]) {
-            destructiveOp->addDisabledSuccessor(current);
+          // add a disabling edge from each destructive operation (inverse
+          // operations are not moved across barriers)
+          if (current->getOperation()->getType() != Barrier) {
+            for (const auto& destructiveOp : destructive[qubit]) {
+              destructiveOp->addDisabledSuccessor(current);
+            }
           }
           // check whether the current operation commutes with the current
           // group members
@@ -212,9 +215,12 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       for (const auto& constructiveOp : constructive[qubit]) {
         constructiveOp->addEnabledSuccessor(current);
       }
-      // add a disabling edge from each destructive operation
-      for (const auto& destructiveOp : destructive[qubit]) {
-        destructiveOp->addDisabledSuccessor(current);
+      // add a disabling edge from each destructive operation (inverse
+      // operations are not moved across barriers)
+      if (current->getOperation()->getType() != Barrier) {
+        for (const auto& destructiveOp : destructive[qubit]) {
+          destructiveOp->addDisabledSuccessor(current);
+        }
       }
       // check whether the current operation commutes with the current
       // group members
-- 
2.43.0


From e32dae26989f87991184cd2cfeda90493cccd3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 096/109] fix: keep the closure of acyclic graphs transitive
 when an edge joins two paths

---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..54ba90b 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -52,12 +52,14 @@ public:
       throw std::logic_error(oss.str());
     }
     DirectedGraph<V>::addEdge(u, v);
+    // everything reachable from v is now reachable from whatever reaches u
     for (std::size_t k = 0; k < this->nVertices; ++k) {
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 438c938dd537332219f84b5bb5f1747f1b64a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 097/109] fix: consider loops in the adjacency and the text of
 undirected graphs

---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..cdafe42 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,8 +194,8 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
-           (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
+    return i < j ? adjacencyMatrix[i][j - i] != std::nullopt
+                 : adjacencyMatrix[j][i - j] != std::nullopt;
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
                                            const std::pair<V, V>& f) -> bool {
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0


From 560a590af0e407fef624cd7a53b29b7712c6c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 098/109] fix: normalise large global phases without looping
 forever

---
 src/ir/QuantumComputation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index ab20cce..d94489f 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1388,13 +1388,13 @@ std::size_t QuantumComputation::getNgarbageQubits() const {
 ///---------------------------------------------------------------------------
 
 void QuantumComputation::gphase(const fp angle) {
-  globalPhase += angle;
   // normalize to [0, 2pi)
-  while (globalPhase < 0) {
+  globalPhase = std::fmod(globalPhase + angle, 2 * PI);
+  if (globalPhase < 0) {
     globalPhase += 2 * PI;
   }
-  while (globalPhase >= 2 * PI) {
-    globalPhase -= 2 * PI;
+  if (globalPhase >= 2 * PI) {
+    globalPhase = 0;
   }
 }
 
-- 
2.43.0


From 6da50cf293989b1d4994ce23a0411944d1e0daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 099/109] fix: use the remaining qubits of circuits whose
 qubits are not numbered consecutively

---
 src/ir/QuantumComputation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index d94489f..a72fc3f 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -34,7 +34,6 @@
 #include <iterator>
 #include <map>
 #include <memory>
-#include <numeric>
 #include <optional>
 #include <ostream>
 #include <random>
@@ -971,8 +970,7 @@ void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
 }
 
 void QuantumComputation::checkQubitRange(const Qubit qubit) const {
-  if (const auto it = initialLayout.find(qubit);
-      it == initialLayout.end() || it->second >= getNqubits()) {
+  if (initialLayout.find(qubit) == initialLayout.end()) {
     throw std::out_of_range("Qubit index out of range: " +
                             std::to_string(qubit));
   }
@@ -1663,8 +1661,12 @@ void QuantumComputation::reset(const Targets& targets) {
   emplace_back<NonUnitaryOperation>(targets, Reset);
 }
 void QuantumComputation::barrier() {
-  std::vector<Qubit> targets(getNqubits());
-  std::iota(targets.begin(), targets.end(), 0);
+  // the physical qubits need not be numbered consecutively
+  Targets targets{};
+  targets.reserve(initialLayout.size());
+  for (const auto& [physical, _] : initialLayout) {
+    targets.emplace_back(physical);
+  }
   emplace_back<StandardOperation>(targets, Barrier);
 }
 void QuantumComputation::barrier(const Qubit target) {
-- 
2.43.0


From 1d0cf3dc5bf8f2007135e4c0f56d98dbb5c6aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 100/109] fix: keep the name of inverted AOD operations up to
 date

---
 src/ir/operations/AodOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 01950b3..5ca7e4b 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -160,6 +160,7 @@ void AodOperation::invert() {
   } else if (type == qc::OpType::AodDeactivate) {
     type = qc::OpType::AodActivate;
   }
+  name = toString(type);
 }
 
 } // namespace na
-- 
2.43.0


From f77da04df336b9f9d204b5f652e6cffde3b37373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 101/109] fix: compare the movements of AOD operations

---
 include/mqt-core/ir/operations/AodOperation.hpp | 10 ++++++++++
 src/ir/operations/AodOperation.cpp              | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/mqt-core/ir/operations/AodOperation.hpp b/include/mqt-core/ir/operations/AodOperation.hpp
index ad14379..53940f8 100644
--- a/include/mqt-core/ir/operations/AodOperation.hpp
+++ b/include/mqt-core/ir/operations/AodOperation.hpp
@@ -12,6 +12,7 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/Register.hpp"
+#include "ir/Permutation.hpp"
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/Operation.hpp"
@@ -35,6 +36,10 @@ struct SingleOperation {
   SingleOperation(const Dimension d, const qc::fp s, const qc::fp e)
       : dir(d), start(s), end(e) {}
 
+  [[nodiscard]] bool operator==(const SingleOperation& other) const {
+    return dir == other.dir && start == other.start && end == other.end;
+  }
+
   [[nodiscard]] std::string toQASMString() const;
 };
 class AodOperation final : public qc::Operation {
@@ -87,6 +92,11 @@ public:
                     const qc::BitIndexToRegisterMap& bitMap, std::size_t indent,
                     bool openQASM3) const override;
 
+  using qc::Operation::equals;
+  [[nodiscard]] bool equals(const qc::Operation& op,
+                            const qc::Permutation& perm1,
+                            const qc::Permutation& perm2) const override;
+
   void invert() override;
 };
 } // namespace na
diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 5ca7e4b..bce128f 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -11,6 +11,7 @@
 #include "ir/operations/AodOperation.hpp"
 
 #include "ir/Definitions.hpp"
+#include "ir/Permutation.hpp"
 #include "ir/Register.hpp"
 #include "ir/operations/OpType.hpp"
 
@@ -150,6 +151,16 @@ void AodOperation::dumpOpenQASM(
   of << ";\n";
 }
 
+bool AodOperation::equals(const qc::Operation& op,
+                          const qc::Permutation& perm1,
+                          const qc::Permutation& perm2) const {
+  if (const auto* aod = dynamic_cast<const AodOperation*>(&op)) {
+    return operations == aod->operations &&
+           Operation::equals(op, perm1, perm2);
+  }
+  return false;
+}
+
 void AodOperation::invert() {
   if (type == qc::OpType::AodMove) {
     for (auto& op : operations) {
-- 
2.43.0


From d53f1c8658a78765e13f32fb9a3edacb74cda0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 102/109] fix: write AOD operations to streams that cannot be
 repositioned and with all digits

---
 src/ir/operations/AodOperation.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index bce128f..5cb91e6 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -21,7 +21,6 @@
 #include <cstddef>
 #include <cstdint>
 #include <iomanip>
-#include <ios>
 #include <limits>
 #include <ostream>
 #include <sstream>
@@ -40,6 +39,7 @@ AodOperation::AodOperation(qc::OpType s, std::vector<qc::Qubit> qubits,
 
 std::string SingleOperation::toQASMString() const {
   std::stringstream ss;
+  ss << std::setprecision(std::numeric_limits<qc::fp>::digits10);
   ss << static_cast<std::size_t>(dir) << ", " << start << ", " << end << "; ";
   return ss.str();
 }
@@ -137,17 +137,19 @@ void AodOperation::dumpOpenQASM(
   of << name;
   // write AOD operations
   of << " (";
+  std::string movements{};
   for (const auto& op : operations) {
-    of << op.toQASMString();
+    movements += op.toQASMString();
   }
-  // remove last semicolon
-  of.seekp(-1, std::ios_base::end);
-  of << ")";
+  if (!movements.empty()) {
+    // remove the blank after the last semicolon
+    movements.pop_back();
+  }
+  of << movements << ")";
   // write qubit start
-  for (const auto& qubit : targets) {
-    of << " " << qubitMap.at(qubit).second << ",";
+  for (std::size_t i = 0; i < targets.size(); ++i) {
+    of << (i == 0 ? " " : ", ") << qubitMap.at(targets[i]).second;
   }
-  of.seekp(-1, std::ios_base::end);
   of << ";\n";
 }
 
-- 
2.43.0


From 7cea9199494405251ca7a3fb792ab698b1657c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 103/109] fix: print operations below the qubits they act on
 for any initial layout

---
 src/ir/operations/NonUnitaryOperation.cpp | 48 ++++++++++++-----------
 src/ir/operations/Operation.cpp           | 14 ++++---
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 8163b56..a5f0049 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -190,27 +190,24 @@ void NonUnitaryOperation::printMeasurement(std::ostream& os,
                                            const std::vector<Bit>& c,
                                            const Permutation& permutation,
                                            const std::size_t nqubits) {
-  auto qubitIt = q.cbegin();
-  auto classicIt = c.cbegin();
+  const auto printColumn = [&os, &q, &c](const Qubit qubit) {
+    // the last measurement of a qubit is the one that counts
+    const auto it = std::find(q.crbegin(), q.crend(), qubit);
+    if (it != q.crend()) {
+      const auto idx = std::distance(it, q.crend()) - 1;
+      os << "\033[34m" << std::setw(4) << c.at(static_cast<std::size_t>(idx))
+         << "\033[0m";
+    } else {
+      os << std::setw(4) << "|";
+    }
+  };
   if (permutation.empty()) {
     for (std::size_t i = 0; i < nqubits; ++i) {
-      if (qubitIt != q.cend() && *qubitIt == i) {
-        os << "\033[34m" << std::setw(4) << *classicIt << "\033[0m";
-        ++qubitIt;
-        ++classicIt;
-      } else {
-        os << std::setw(4) << "|";
-      }
+      printColumn(static_cast<Qubit>(i));
     }
   } else {
     for (const auto& [physical, logical] : permutation) {
-      if (qubitIt != q.cend() && *qubitIt == physical) {
-        os << "\033[34m" << std::setw(4) << *classicIt << "\033[0m";
-        ++qubitIt;
-        ++classicIt;
-      } else {
-        os << std::setw(4) << "|";
-      }
+      printColumn(physical);
     }
   }
 }
@@ -219,14 +216,21 @@ void NonUnitaryOperation::printReset(std::ostream& os,
                                      const std::vector<Qubit>& q,
                                      const Permutation& permutation,
                                      const std::size_t nqubits) const {
-  const auto actualTargets = permutation.apply(q);
-  for (std::size_t i = 0; i < nqubits; ++i) {
-    if (std::find(actualTargets.cbegin(), actualTargets.cend(), i) !=
-        actualTargets.cend()) {
+  const auto printColumn = [this, &os, &q](const Qubit qubit) {
+    if (std::find(q.cbegin(), q.cend(), qubit) != q.cend()) {
       os << "\033[31m" << std::setw(4) << shortName(type) << "\033[0m";
-      continue;
+    } else {
+      os << std::setw(4) << "|";
+    }
+  };
+  if (permutation.empty()) {
+    for (std::size_t i = 0; i < nqubits; ++i) {
+      printColumn(static_cast<Qubit>(i));
+    }
+  } else {
+    for (const auto& [physical, logical] : permutation) {
+      printColumn(physical);
     }
-    os << std::setw(4) << "|";
   }
 }
 
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 4c92e52..04396ef 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -70,11 +70,15 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
                                [[maybe_unused]] const std::size_t prefixWidth,
                                const std::size_t nqubits) const {
   const auto precBefore = std::cout.precision(20);
-  const auto& actualControls = permutation.apply(getControls());
-  const auto& actualTargets = permutation.apply(getTargets());
-
-  for (std::size_t i = 0; i < nqubits; ++i) {
-    const auto q = static_cast<Qubit>(i);
+  const auto& actualControls = getControls();
+  const auto& actualTargets = getTargets();
+
+  // there is one column for every (physical) qubit of the permutation
+  const auto numColumns = permutation.empty() ? nqubits : permutation.size();
+  auto columnIt = permutation.begin();
+  for (std::size_t i = 0; i < numColumns; ++i) {
+    const auto q = permutation.empty() ? static_cast<Qubit>(i)
+                                       : (columnIt++)->first;
     if (std::find(actualTargets.cbegin(), actualTargets.cend(), q) !=
         actualTargets.cend()) {
       if (type == ClassicControlled) {
-- 
2.43.0


From d75d12485a3b070e2494dc55f374be434dc01cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 104/109] fix: print compound operations without a prefix

---
 src/ir/operations/CompoundOperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..490072e 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -155,7 +155,7 @@ std::ostream& CompoundOperation::print(std::ostream& os,
                                        const Permutation& permutation,
                                        const std::size_t prefixWidth,
                                        const std::size_t nqubits) const {
-  const auto prefix = std::string(prefixWidth - 1, ' ');
+  const auto prefix = std::string(prefixWidth > 0 ? prefixWidth - 1 : 0, ' ');
   os << std::string(4 * nqubits, '-') << "\n";
   for (const auto& op : ops) {
     os << prefix << ":";
-- 
2.43.0


From 39e6cebaec04212a5d2d5a7f20dffbc988b85939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 105/109] fix: print the comparison and the gate of classically
 controlled operations

---
 .../ir/operations/ClassicControlledOperation.hpp     |  8 +++++++-
 src/ir/operations/ClassicControlledOperation.cpp     | 12 ++++++++++++
 src/ir/operations/NonUnitaryOperation.cpp            |  1 +
 src/ir/operations/Operation.cpp                      | 12 ------------
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 6466dc0..c6606f3 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -14,6 +14,7 @@
 #include "ir/Permutation.hpp"
 #include "ir/Register.hpp"
 #include "ir/operations/Control.hpp"
+#include "ir/operations/OpType.hpp"
 #include "ir/operations/Operation.hpp"
 
 #include <cstddef>
@@ -130,7 +131,12 @@ public:
                     const BitIndexToRegisterMap& bitMap, std::size_t indent,
                     bool openQASM3) const override;
 
-  void invert() override { op->invert(); }
+  void invert() override {
+    op->invert();
+    name = "c_" + shortName(op->getType());
+  }
+
+  std::ostream& printParameters(std::ostream& os) const override;
 
 private:
   std::unique_ptr<Operation> op;
diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 41a6bb8..9b09795 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -108,6 +108,18 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
   return *this;
 }
 
+std::ostream&
+ClassicControlledOperation::printParameters(std::ostream& os) const {
+  os << "  c[";
+  if (controlRegister.has_value()) {
+    const auto start = controlRegister->getStartIndex();
+    os << start << "..." << (start + controlRegister->getSize() - 1);
+  } else {
+    os << controlBit.value_or(0);
+  }
+  return os << "] " << comparisonKind << " " << expectedValue;
+}
+
 bool ClassicControlledOperation::equals(const Operation& operation,
                                         const Permutation& perm1,
                                         const Permutation& perm2) const {
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index a5f0049..f5925ee 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -26,6 +26,7 @@
 #include <cassert>
 #include <cstddef>
 #include <iomanip>
+#include <iterator>
 #include <ostream>
 #include <set>
 #include <stdexcept>
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 04396ef..58f3c2d 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -27,18 +27,6 @@
 namespace qc {
 
 std::ostream& Operation::printParameters(std::ostream& os) const {
-  if (isClassicControlledOperation()) {
-
-    os << "  c[" << parameter[0];
-    if (parameter.size() == 2) {
-      os << "] == " << parameter[1];
-    } else {
-      os << "..." << (parameter[0] + parameter[1] - 1)
-         << "] == " << parameter[2];
-    }
-    return os;
-  }
-
   bool isZero = true;
   for (const auto& p : parameter) {
     if (p != static_cast<fp>(0)) {
-- 
2.43.0


From 25f225b923cfe34c36226eb256e92af08cad876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 106/109] fix: print negative controls

---
 src/ir/operations/Operation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 58f3c2d..1be28fd 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -82,7 +82,8 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
     }
 
     if (const auto it =
-            std::find(actualControls.cbegin(), actualControls.cend(), q);
+            std::find_if(actualControls.cbegin(), actualControls.cend(),
+                         [q](const Control& c) { return c.qubit == q; });
         it != actualControls.cend()) {
       if (it->type == Control::Type::Pos) {
         os << "\033[32m";
-- 
2.43.0


From 1aa0ac30f8e9d88e2d179d622b3308d1b1874389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 107/109] fix: defer measurements within and in front of
 compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 78 ++++++++++++++--------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 9946cea..51f5a99 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -894,6 +894,45 @@ bool isAppliedFor(const ClassicControlledOperation& op,
 }
 } // namespace
 
+namespace {
+using Iterator = QuantumComputation::iterator;
+void flattenCompoundOperation(QuantumComputation& qc, Iterator& it) {
+  assert((*it)->isCompoundOperation());
+  auto& op = dynamic_cast<CompoundOperation&>(**it);
+  auto opIt = op.begin();
+  std::int64_t movedOperations = 0;
+  while (opIt != op.end()) {
+    // move the operation from the compound operation in front of the compound
+    // operation in the flattened container. `it` then points to the newly
+    // inserted element
+    it = qc.insert(it, std::move(*opIt));
+    // advance the operation iterator to point past the now moved-from element
+    // in the compound operation
+    ++opIt;
+    // advance the general iterator to again point to the compound operation
+    ++it;
+    // track the moved operations
+    ++movedOperations;
+  }
+  // whenever all the operations have been processed, `it` points to the
+  // compound operation and `opIt` to `op.end()`. The compound operation can now
+  // be deleted safely
+  it = qc.erase(it);
+  // move the general iterator back to the position of the last moved operation
+  std::advance(it, -movedOperations);
+}
+
+/// check whether an operation is or contains a non-unitary operation
+bool containsNonUnitary(const Operation& op) {
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::any_of(compOp.begin(), compOp.end(),
+                       [](const auto& g) { return containsNonUnitary(*g); });
+  }
+  return !op.isUnitary();
+}
+} // namespace
+
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
   // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
@@ -905,6 +944,16 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            0 └─────┘
   std::unordered_map<Bit, Qubit> qubitsToAddMeasurements{};
   auto it = qc.begin();
+  // measurements and classic-controlled operations may be part of compound
+  // operations
+  while (it != qc.end()) {
+    if ((*it)->isCompoundOperation() && containsNonUnitary(**it)) {
+      flattenCompoundOperation(qc, it);
+    } else {
+      ++it;
+    }
+  }
+  it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
         measurement != nullptr && measurement->getType() == Measure) {
@@ -1113,35 +1162,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   qc.initializeIOMapping();
 }
 
-namespace {
-using Iterator = QuantumComputation::iterator;
-void flattenCompoundOperation(QuantumComputation& qc, Iterator& it) {
-  assert((*it)->isCompoundOperation());
-  auto& op = dynamic_cast<CompoundOperation&>(**it);
-  auto opIt = op.begin();
-  std::int64_t movedOperations = 0;
-  while (opIt != op.end()) {
-    // move the operation from the compound operation in front of the compound
-    // operation in the flattened container. `it` then points to the newly
-    // inserted element
-    it = qc.insert(it, std::move(*opIt));
-    // advance the operation iterator to point past the now moved-from element
-    // in the compound operation
-    ++opIt;
-    // advance the general iterator to again point to the compound operation
-    ++it;
-    // track the moved operations
-    ++movedOperations;
-  }
-  // whenever all the operations have been processed, `it` points to the
-  // compound operation and `opIt` to `op.end()`. The compound operation can now
-  // be deleted safely
-  it = qc.erase(it);
-  // move the general iterator back to the position of the last moved operation
-  std::advance(it, -movedOperations);
-}
-} // namespace
-
 void CircuitOptimizer::flattenOperations(QuantumComputation& qc,
                                          bool customGatesOnly) {
   auto it = qc.begin();
-- 
2.43.0


From c4fb8cee77286110986765a7ca29a889836ed430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 108/109] fix: unified registers hold no ancillary qubits

---
 src/ir/QuantumComputation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index a72fc3f..5f806b4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -939,6 +939,7 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  std::fill(ancillary.begin(), ancillary.end(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
-- 
2.43.0


From a3cd714ab8d59fcb656e3ed876fcb8b2ea65016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 109/109] fix: modifiers of gates with any number of controls

---
 src/qasm3/Importer.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 74f255d..c682f62 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -534,8 +534,20 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
     if (identifier == "mcx" || identifier == "mcx_gray" ||
         identifier == "mcx_vchain" || identifier == "mcx_recursive" ||
         identifier == "mcphase") {
+      // the controls of the modifiers are no operands of the gate itself
+      auto nOperands = gateCallStatement->operands.size();
+      for (const auto& modifier : gateCallStatement->modifiers) {
+        if (const auto ctrlModifier =
+                std::dynamic_pointer_cast<CtrlGateModifier>(modifier);
+            ctrlModifier != nullptr) {
+          const size_t n = evaluatePositiveConstant(
+              ctrlModifier->expression, gateCallStatement->debugInfo,
+              /*defaultValue=*/1);
+          nOperands -= std::min(n, nOperands);
+        }
+      }
       // we create a temp gate definition for these gates
-      gate = getMcGateDefinition(identifier, gateCallStatement->operands.size(),
+      gate = getMcGateDefinition(identifier, nOperands,
                                  gateCallStatement->debugInfo);
     } else if (openQASM2CompatMode) {
       auto [updatedIdentifier, nControls] =
-- 
2.43.0

