From d978c3cd9c5877030c008df775b7f20d4e03bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/24] fix: X lattice readout parsing raised AttributeError
 (self.DW does not exist)

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..7231742 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -276,7 +276,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From f5819727ede91d20f6a5a97bbcd0c1071a026f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 02/24] fix: decoding appended virtual nodes to the syndrome
 list passed in by the caller

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..e0bd6dd 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]  # leave the caller's list alone
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 02799712e7a48242ceb8b04141fdb605900de86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 03/24] fix: boundary degeneracy was not summed for the
 syndrome node with graph index 0

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index e0bd6dd..03156a2 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From f885d766eda12c3f2dd9c26de350db97a13f300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 04/24] fix: topological qubits shared and overwrote the params
 dict passed in, so that qubits built from one dict (such as the cx ancilla)
 reset each other's round and readout counters

---
 qtcodes/circuits/base.py       | 3 ++-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..962f7ba 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -294,7 +294,8 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         # == None is necessary, as `not QuantumCircuit()` is True
         circ = QuantumCircuit() if circ is None else circ
-        params = params if params else {}
+        # own copy, as the lattice stores its counters (e.g. T) in params
+        params = dict(params) if params else {}
         self.lattice: _TopologicalLattice = self.lattice_type(params, name, circ)
         self.name = name
         self.circ = circ
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..b2574bd 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else {})
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From ab1ebbf43884779da2135ba668467f983b7e5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/24] fix: logical CX dephased its control, as the control's
 Z value was left in its readout ancilla

---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..7ecb1e2 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight into target: going through the ancilla
+            # would leave it entangled with, and so dephase, the logical qubit
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..a7dfe7a 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,16 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight into target: going through the ancilla
+            # would leave it entangled with, and so dephase, the logical qubit
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(target)
+                    self.circ.cx(target, self.qregisters["data"][i])
+                    self.circ.h(target)
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 48c5a8e710fe17d105b65eead72f771c37b8c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 06/24] fix: sweep_mp always failed, as it mapped a lambda over
 a process pool, and its workers would have raced on the data file

---
 qtcodes/tools/benchmarking.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..183f437 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+from functools import partial
 
 
 import numpy as np
@@ -151,11 +152,16 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # only this process saves: the workers would overwrite each other's points
+        single = partial(self.single, save_data=False, shots=shots)
+        logical_error_rates = []
+        with Pool(4) as p:  # TODO change on HPC
+            for physical_error_rate, logical_error_rate in zip(
+                physical_error_rates, p.imap(single, physical_error_rates)
+            ):
+                logical_error_rates.append(logical_error_rate)
+                if save_data:
+                    self.append_data(physical_error_rate, logical_error_rate)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From d9351ac593b116a6e82cbcdc9860ae9a7dfda79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 07/24] fix: a crash or full disk while saving a benchmark
 point destroyed every point saved before

---
 qtcodes/tools/benchmarking.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 183f437..97b03e3 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+import os
 from functools import partial
 
 
@@ -207,7 +208,7 @@ class TopologicalBenchmark:
             data = np.load(self.filename)
             physical_error_rates = data["physical_error_rates"]
             logical_error_rates = data["logical_error_rates"]
-        except:
+        except FileNotFoundError:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
@@ -215,13 +216,17 @@ class TopologicalBenchmark:
         logical_error_rates = np.append(logical_error_rates, logical_error_rate)
 
         indxs = np.argsort(physical_error_rates)
-        np.savez(
-            self.filename,
-            d=self.decoder.params["d"],
-            T=self.decoder.params["T"],
-            physical_error_rates=physical_error_rates[indxs],
-            logical_error_rates=logical_error_rates[indxs],
-        )
+        # write aside and rename, so that a crash cannot damage the points saved so far
+        temp_filename = f"{self.filename}.{os.getpid()}.tmp"
+        with open(temp_filename, "wb") as temp_file:
+            np.savez(
+                temp_file,
+                d=self.decoder.params["d"],
+                T=self.decoder.params["T"],
+                physical_error_rates=physical_error_rates[indxs],
+                logical_error_rates=logical_error_rates[indxs],
+            )
+        os.replace(temp_filename, self.filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From 379fcc840977f3c37cdb35770f5fbe4d937cbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 08/24] fix: logical readout of XZZX qubits of height or width
 1 raised ValueError

---
 qtcodes/circuits/xzzx.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index a7dfe7a..55b7ea8 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -154,16 +154,18 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        if x_readout_indxs:
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -194,16 +196,18 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        if x_readout_indxs:
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From 9986e0544fa8ff7cf8001f14f67d0444cdc0d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 09/24] fix: entangle_x/entangle_z raised KeyError, or
 entangled the other syndrome type, on lattices of height or width 1

---
 qtcodes/circuits/base.py            | 6 ++++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 962f7ba..403d6a0 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -145,8 +145,10 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = (
+            self.qubit_indices if qubit_indices is None else qubit_indices
+        )
+        stabilizers = self.stabilizers if stabilizers is None else stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 7231742..b4ef502 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 74192162d810b46731a843d8b8f7d173106f89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 10/24] fix: look up table decoding of a readout that is not in
 the table raised ZeroDivisionError

---
 qtcodes/fitters/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..5c5a5a3 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -193,6 +193,8 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
 
         # p(s) = sum_i p(s|i)p(i)
         p_s = p_s_given_i[0] * p_i[0] + p_s_given_i[1] * p_i[1]
+        if p_s == 0.0:  # syndromes not in the table, so they tell us nothing
+            return list(p_i)
 
         # p(i|s) = p(s|i)p(i)/p(s), Bayes Rule
         p_i_given_s = [p_s_given_i[i] * p_i[i] / p_s for i in [0, 1]]
-- 
2.43.0


From 4737f2ae4dfca5fedf40fc81e725bee1154bf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 11/24] fix: TopologicalAnalysis.plot drew on the current axes
 rather than on the axes it was given

---
 qtcodes/tools/benchmarking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 97b03e3..68ff81f 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -248,7 +248,7 @@ class TopologicalAnalysis:
         if ax is None:
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -256,8 +256,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From d5cc58a6d043656de8a5b11d1e89e580bbb8a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 12/24] fix: XZZX syndrome extraction was not fault tolerant
 for X readout: both plaquette types shared one traversal order, so about d/2
 faults made an undetected logical error

---
 qtcodes/circuits/xzzx.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 55b7ea8..a7955ab 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -44,13 +44,46 @@ class _XZZX(_Stabilizer):
             self.circ.h(syndrome)
 
 
+class _XZZXVertical(_XZZX):
+    """
+    XZZX-syndrome measurement that pairs up the data qubits by column, so that the two-qubit
+    errors that a single syndrome qubit error spreads to do not lie along the logical Z row.
+    """
+
+    def entangle(self) -> None:
+        """
+        Going in an "N" traversal direction.
+        """
+        syndrome = self.qubit_indices[0]
+        top_l = self.qubit_indices[1]
+        top_r = self.qubit_indices[2]
+        bot_l = self.qubit_indices[3]
+        bot_r = self.qubit_indices[4]
+
+        if top_l:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, top_l)
+            self.circ.h(syndrome)
+
+        if bot_l:  # Z
+            self.circ.cx(bot_l, syndrome)
+
+        if top_r:  # Z
+            self.circ.cx(top_r, syndrome)
+
+        if bot_r:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, bot_r)
+            self.circ.h(syndrome)
+
+
 class _XZZXLattice(_RotatedLattice):
     """
     This class contains all the lattice geometry
     specifications regarding the XZZX Rotated Surface Code.
     """
 
-    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZX}
+    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZXVertical}
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-- 
2.43.0


From 630bd5c5c6966019df206dab415ad5a77a784428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 13/24] fix: syndrome graphs of lattices of height or width 1
 had a node for a syndrome that does not exist

---
 qtcodes/fitters/rotated_surface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..ab944ed 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -57,6 +57,12 @@ class RotatedDecoder(LatticeDecoder):
         """
         start_nodes = {"Z": (0.5, 0.5), "X": (0.5, 1.5)}
         for syndrome_graph_key in self.syndrome_graph_keys:
+            # a lattice of height (width) 1 has no Z (X) syndromes
+            if not self._valid_syndrome(
+                start_nodes[syndrome_graph_key], syndrome_graph_key
+            ):
+                continue
+
             # subgraphs for each time step
             for t in range(0, self.params["T"]):
                 start_node = start_nodes[syndrome_graph_key]
-- 
2.43.0


From 4f5dc41d3c37e89311538a67c294bff5e3aefa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 14/24] fix: decoders of large lattices (e.g. 45x45, or 1101
 qubit repetition codes) raised RecursionError

---
 qtcodes/fitters/rotated_surface.py | 46 +++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index ab944ed..f6bc60e 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -95,8 +95,8 @@ class RotatedDecoder(LatticeDecoder):
         syndrome_graph_key: str,
         edge_weight: int = 1,
     ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
-        The current_node is connected to neighboring nodes without revisiting a node.
+        """Depth-first traversal to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+        Starting with current_node, nodes are connected to neighboring nodes without revisiting a node.
 
         Args:
             current_node ((t, x, y)): Current syndrome node to be connected with neighboring nodes.
@@ -109,6 +109,30 @@ class RotatedDecoder(LatticeDecoder):
         Returns:
             None: function is to traverse the syndrome nodes and connect neighbors
         """
+        # own stack, as recursion would exceed Python's recursion limit on large lattices
+        stack = [current_node]
+        while stack:
+            neighbors = self._connect_neighbors(
+                stack.pop(), t, visited_nodes, syndrome_graph_key, edge_weight
+            )
+            stack.extend(reversed(neighbors))
+
+    def _connect_neighbors(
+        self,
+        current_node: TQubit,
+        t: int,
+        visited_nodes: List[TQubit],
+        syndrome_graph_key: str,
+        edge_weight: int = 1,
+    ) -> List[TQubit]:
+        """Connects current_node to those of its neighbors that have not been visited.
+
+        Args:
+            See self._populate_syndrome_graph
+
+        Returns:
+            neighbors ([(t, x, y)]): neighbors to be traversed next
+        """
         visited_nodes.append(current_node)
         neighbors = []
         i = current_node[1]  # syndrome node x coordinate
@@ -131,10 +155,6 @@ class RotatedDecoder(LatticeDecoder):
             and (-1, n[0], n[1]) not in visited_nodes
         ]  # virtual node neighbors of current_node not already visited
 
-        # no neighbors to add edges
-        if not normal_neighbors and not virtual_neighbors:
-            return
-
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
             target_node = (
@@ -170,17 +190,9 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0


From 13ea77cab4a50b1da0aa88ea81a134ae813f6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 15/24] fix: negative or wrong-length code dimensions were
 accepted (and decoders failed on whole-number floats that encoders accept)

---
 qtcodes/circuits/rotated_surface.py | 6 ++++++
 qtcodes/fitters/rotated_surface.py  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index b4ef502..5b046c7 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -72,10 +72,16 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         self.params["d"] = tuple(map(int, self.params["d"]))
 
         # validation
+        if len(self.params["d"]) != 2:
+            raise LatticeError(
+                "Please provide a code height and width in parameter d: e.g. (3,7)."
+            )
         dh = self.params["d"][self.H]
         dw = self.params["d"][self.W]
         if dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code distance must be positive!")
 
         # calculated params
         self.params["T"] = -1  # -1 until a stabilizer round is added!
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index f6bc60e..1d8d721 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -39,6 +39,8 @@ class RotatedDecoder(LatticeDecoder):
                 "Please provide a code height and width in parameter d: e.g. (3,7)."
             )
 
+        # same as the encoder, which also accepts e.g. (3.0, 7.0)
+        self.params["d"] = tuple(map(int, self.params["d"]))
         dh = self.params["d"][constants.DH]
         dw = self.params["d"][constants.DW]
 
@@ -46,6 +48,8 @@ class RotatedDecoder(LatticeDecoder):
             raise LatticeError("Surface code height must be odd!")
         if dw % 2 != 1:
             raise LatticeError("Surface code width must be odd!")
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code height and width must be positive!")
 
     def _make_syndrome_graph(self) -> None:
         """
-- 
2.43.0


From c13d651bf087f20c3e4da911c9fc9c711edcd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 16/24] fix: sweep_mp hung after any simulation in the same
 process, as its forked workers inherited Aer's used default executor

---
 qtcodes/tools/benchmarking.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 68ff81f..536b87d 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -5,6 +5,7 @@ benchmarking class for qtcodes
 
 import glob
 import os
+from concurrent.futures import ThreadPoolExecutor
 from functools import partial
 
 
@@ -184,17 +185,20 @@ class TopologicalBenchmark:
                 Shots in the circuit simulation.
 
         """
-        results = (
-            execute(
-                self.circ,
-                Aer.get_backend("aer_simulator"),
-                noise_model=self.noise_model_func(physical_error_rate),
-                optimization_level=0,
-                shots=shots,
+        # own executor, as Aer's default one hangs in workers forked after it was used
+        with ThreadPoolExecutor(max_workers=1) as executor:
+            results = (
+                execute(
+                    self.circ,
+                    Aer.get_backend("aer_simulator"),
+                    noise_model=self.noise_model_func(physical_error_rate),
+                    optimization_level=0,
+                    shots=shots,
+                    executor=executor,
+                )
+                .result()
+                .get_counts()
             )
-            .result()
-            .get_counts()
-        )
         logical_error_rate_value = self.logical_error_rate(
             results, err_prob=physical_error_rate
         )
-- 
2.43.0


From ff503efb1841209acbe6a7a1ca823a32f3e167e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 17/24] fix: repetition codes raised IndexError for sizes with
 less than two dimensions

---
 qtcodes/circuits/repetition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index b2574bd..b2abefb 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -47,6 +47,10 @@ class RepetitionQubit(XXZZQubit):
             else:
                 params["d"] = (d, 1)
         elif isinstance(params["d"], Tuple):
+            if len(params["d"]) != 2:
+                raise LatticeError(
+                    "Please provide a code height and width in parameter d: e.g. (3,1)."
+                )
             if not params["phase-flip-protected"] and params["d"][constants.DW] != 1:
                 raise LatticeError(
                     "Bit-flip protected repetition qubits can only have width 1 in parameter d: e.g. (3,1). If you "
-- 
2.43.0


From 08edf99dec83b06f36d98d4671abf7cc7e4c04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 18/24] fix: loaded code width was a numpy scalar, so that
 curves were labelled d=(3, np.int64(3)) under numpy 2

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 536b87d..09e7abc 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -241,7 +241,7 @@ class TopologicalAnalysis:
 
     def load_data(self):
         data = np.load(self.filename)
-        self.params["d"] = (int(data["d"][0]), (data["d"][1]))
+        self.params["d"] = (int(data["d"][0]), int(data["d"][1]))
         self.params["T"] = int(data["T"])
         self.data["physical_error_rates"] = data["physical_error_rates"]  # TODO
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
-- 
2.43.0


From ce23dd31bed9ac5235e67832c826252574749266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 19/24] fix: batch analysis of a directory without a trailing
 slash loaded no files, or those of its siblings, and saved its plots beside
 it

---
 qtcodes/tools/benchmarking.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 09e7abc..b04da30 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -267,7 +267,9 @@ class TopologicalAnalysis:
 class TopologicalBatchAnalysis:
     def __init__(self, dirname: str):
         self.dirname = dirname
-        self.filenames = glob.glob(self.dirname + "*.npz")
+        self.filenames = glob.glob(
+            os.path.join(glob.escape(self.dirname), "*.npz")
+        )
         self.analyses = []
         for filename in self.filenames:
             self.analyses.append(TopologicalAnalysis(filename))
@@ -310,7 +312,9 @@ class TopologicalBatchAnalysis:
             ax.set_title("Comparison of Codes", size=10)
             fig.tight_layout()
             plt.savefig(
-                self.dirname + "comparison" + ("_log" if log_plot else "") + ".png"
+                os.path.join(
+                    self.dirname, "comparison" + ("_log" if log_plot else "") + ".png"
+                )
             )
             plt.show()
 
-- 
2.43.0


From 001739db270ead4ed2c4d5e11d3ba04d7e033efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 20/24] fix: a refused qubit left an empty sub-register, so
 that every CX after one with an invalid ancilla raised IndexError

---
 qtcodes/circuits/circ.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..ab0c903 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,18 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
-        if sub_register not in self.tqubits:
-            self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
+        if ctype not in str2qtype:
+            raise ValueError(
+                "Please choose a Topological Qubit type from: "
+                + str(list(str2qtype.keys()))
+            )
+        # make the qubit first, so that a refused one leaves no empty sub-register
+        tqubit = str2qtype[ctype](
             params, name=self.name + "_" + str(self.n), circ=self.circ
         )
+        if sub_register not in self.tqubits:
+            self.tqubits[sub_register] = {}
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From 506aa99556de047b310b7f3a6188df38f6c52128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 21/24] fix: sweeps of circuits with more than about 30 qubits
 (all d >= 5 surface codes) raised TranspilerError

---
 qtcodes/tools/benchmarking.py | 53 +++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index b04da30..f235744 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -12,7 +12,7 @@ from functools import partial
 import numpy as np
 import matplotlib.pyplot as plt
 
-from qiskit import execute, Aer, QuantumCircuit
+from qiskit import transpile, Aer, QuantumCircuit
 from tqdm import tqdm
 
 from typing import Dict, Optional, List
@@ -67,6 +67,32 @@ class TopologicalBenchmark:
 
         return total_errors / total_count
 
+    def _simulate(
+        self, physical_error_rate: float, shots: int, **run_options
+    ) -> Dict[str, int]:
+        """
+        Simulate the circuit with noise and return its counts.
+
+        This does not use qiskit's `execute`, as it refuses circuits with more qubits
+        than a state vector on this machine could have, which d=5 already exceeds.
+        """
+        backend = Aer.get_backend("aer_simulator")
+        circ = transpile(
+            self.circ,
+            basis_gates=backend.configuration().basis_gates,
+            optimization_level=0,
+        )
+        return (
+            backend.run(
+                circ,
+                noise_model=self.noise_model_func(physical_error_rate),
+                shots=shots,
+                **run_options,
+            )
+            .result()
+            .get_counts()
+        )
+
     def sweep(
         self,
         physical_error_rates: Optional[List[float]] = None,
@@ -102,17 +128,7 @@ class TopologicalBenchmark:
         )  # higher physical_error_rate readout is slower to decode, gives more accurate tqdm estimate
         pbar = tqdm(physical_error_rates)
         for physical_error_rate in pbar:
-            results = (
-                execute(
-                    self.circ,
-                    Aer.get_backend("aer_simulator"),
-                    noise_model=self.noise_model_func(physical_error_rate),
-                    optimization_level=0,
-                    shots=shots,
-                )
-                .result()
-                .get_counts()
-            )
+            results = self._simulate(physical_error_rate, shots)
             logical_error_rate_value = self.logical_error_rate(
                 results, err_prob=physical_error_rate if deg_weight else None
             )
@@ -187,18 +203,7 @@ class TopologicalBenchmark:
         """
         # own executor, as Aer's default one hangs in workers forked after it was used
         with ThreadPoolExecutor(max_workers=1) as executor:
-            results = (
-                execute(
-                    self.circ,
-                    Aer.get_backend("aer_simulator"),
-                    noise_model=self.noise_model_func(physical_error_rate),
-                    optimization_level=0,
-                    shots=shots,
-                    executor=executor,
-                )
-                .result()
-                .get_counts()
-            )
+            results = self._simulate(physical_error_rate, shots, executor=executor)
         logical_error_rate_value = self.logical_error_rate(
             results, err_prob=physical_error_rate
         )
-- 
2.43.0


From 1ea63de11b111e8a1675a64ff9b5d900d4dc8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 22/24] fix: decoders kept the params dict passed in, so that
 reusing it for another decoder or editing it changed the size and rounds of
 earlier decoders

---
 qtcodes/fitters/lattice_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 03156a2..5589ae3 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -35,6 +35,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         super().__init__(params)
         self._params_validation()
+        self.params = dict(self.params)  # later changes to the caller's dict are not ours
 
         for syndrome_graph_key in self.syndrome_graph_keys:
             self.S[syndrome_graph_key] = rx.PyGraph(multigraph=False)
-- 
2.43.0


From 2810344f1d97a064bb554c804096f9cb4b1879c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 23/24] fix: CX raised CircuitError when the circuit already
 had registers named m1, m2, m3 or cnot_readout, e.g. those of another
 topological circuit

---
 qtcodes/circuits/circ.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index ab0c903..40befdc 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -132,19 +132,30 @@ class TopologicalCircuit:
         self.creg: Dict[str, ClassicalRegister] = {}
         self.circ = treg.circ
 
+    def _free_name(self, name):
+        """
+        The name, numbered if another register of the circuit already has it,
+        e.g. one that another TopologicalCircuit on the same circuit added.
+        """
+        taken = {reg.name for reg in self.circ.qregs + self.circ.cregs}
+        free, n = name, 0
+        while free is not None and free in taken:
+            free, n = name + "_" + str(n), n + 1
+        return free
+
     def add_creg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.creg and not override:
             return
-        creg = ClassicalRegister(size=size, name=name, bits=bits)
-        self.creg[name] = creg
+        creg = ClassicalRegister(size=size, name=self._free_name(name), bits=bits)
         self.circ.add_register(creg)
+        self.creg[name] = creg
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
-        qreg = QuantumRegister(size=size, name=name, bits=bits)
-        self.qreg[name] = qreg
+        qreg = QuantumRegister(size=size, name=self._free_name(name), bits=bits)
         self.circ.add_register(qreg)
+        self.qreg[name] = qreg
 
     def _get_index(self, tqubit: Union[TopologicalQubit, int]) -> TopologicalQubit:
         """
-- 
2.43.0


From fec1515b5d3bebcff76076a9f97759d3b99f8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:47 +0000
Subject: [PATCH 24/24] fix: keep a copy of the counts given to
 set_look_up_table

The table referred to the caller's dictionary while the number of shots was
computed once, so a later change of that dictionary left counts and shots
inconsistent and the decoded probabilities wrong.
---
 qtcodes/fitters/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 5c5a5a3..41fc8b4 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,7 +151,7 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = results
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
-- 
2.43.0

