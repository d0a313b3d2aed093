From fa1527c623aec0871445cb2947437bcb004d1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 01/67] fix: onwd_evo returns the onward evolution with the
 dims of the propagators

With Qobj operators it returned the forward evolution, and with arrays it
used the dims of the initial state, which fails for state transfer.
---
 src/qutip_qtrl/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..69e63b7 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1385,10 +1385,10 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
-- 
2.43.0


From bfec8ab171aff6185d9af7adba2979e18279c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 02/67] fix: onto_evo uses the dims of the target adjoint, so
 that it works for states

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 69e63b7..aa9810b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1409,9 +1409,10 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     self._onto_evo_qobj = []
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From a6840c6c7be354ac87dbc84e12a72a246cbb5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 03/67] fix: symplectic phase operator has the internal
 operator data type

The phase operator was created before the operator data type was chosen, so
symplectic dynamics failed with Qobj operators (or memory_optimization).
---
 src/qutip_qtrl/dynamics.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index aa9810b..8976e56 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,12 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+
+        self._set_memory_optimizations()
         # Set the phase application method
+        # Note the operator data type must be known to do this
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
@@ -1790,6 +1792,14 @@ class DynamicsSymplectic(Dynamics):
                 self._omega = omg
         return self._omega
 
+    def _init_phase(self):
+        # Ensure that the phase is of the internal operator data type
+        if self._phase_application != "custom":
+            self._omega = None
+            self._omega_qobj = None
+            self._dyn_gen_phase = None
+        Dynamics._init_phase(self)
+
     def _set_phase_application(self, value):
         Dynamics._set_phase_application(self, value)
         if self._evo_initialized:
-- 
2.43.0


From c34dbf417e41f73417bec14672592ef74db39f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 04/67] fix: augmented matrix propagator works with Qobj
 operators

---
 src/qutip_qtrl/propcomp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..7a893fd 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -336,10 +336,15 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            cdg = dyn._get_phased_ctrl_dyn_gen(k, j)
+            A = dg.to("csr").data.as_scipy() * dyn.tau[k]
+            E = cdg.to("csr").data.as_scipy() * dyn.tau[k]
+            Z = sp.csr_matrix(dg.shape)
+            aug = Qobj(
+                sp.vstack(
+                    [sp.hstack([A, E]), sp.hstack([Z, A])], format="csr"
+                )
+            )
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
-- 
2.43.0


From 2025c3bbd8af7d133c3eef1a62c157bdd9474193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 05/67] fix: control container is examined each time the
 controls are initialised

The number of controls and whether they are time dependent were taken from
the first container seen (or, for time dependence, only found out after it
was needed), so other controls could not be used in a re-initialisation.
---
 src/qutip_qtrl/dynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 8976e56..a0afd62 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -722,8 +722,10 @@ class Dynamics(object):
         # check evolution operators
         if not self._drift_dyn_gen_checked:
             _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # The controls may have been changed since any previous initialisation
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        self._ctrl_dyn_gen_checked = True
+        self._num_ctrls = self._get_num_ctrls()
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -1137,6 +1139,7 @@ class Dynamics(object):
             self.time_depend_ctrl_dyn_gen = True
         else:
             self._num_ctrls = len(self.ctrl_dyn_gen)
+            self.time_depend_ctrl_dyn_gen = False
 
         return self._num_ctrls
 
-- 
2.43.0


From ab2b16208ef03bf0cd351076e9d1d4d1cdc1965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 06/67] fix: SU phase option works with array operators

The overlap is a numpy scalar, whose shape is (), for which normalize_PSU
already allows.
---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..206c80b 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 7b1ba4e1c20b0cbced428137491633a441bc1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 07/67] fix: trace difference of states works with Qobj
 operators

The product of a bra and a ket is a scalar, which has no tr method.
---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 206c80b..635cf93 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.ndim(A) == 0:
+        # the product of a bra and a ket is already a scalar
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = fwd_evo.dot(prop_eps)
-- 
2.43.0


From 53495d6c115a123cbd3ba8a9694049316b46fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 08/67] fix: approximate trace difference gradient applies the
 evolution in time order

The forward evolution, the shifted propagator and the onward evolution were
multiplied in the wrong order.
---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 635cf93..a4d81ba 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -769,9 +769,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -779,9 +779,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From b58a810ab874963d76acef1d71a4b6a1a06b75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 09/67] fix: deprecated accessor methods call their
 replacements correctly

compute_prop_grad passed self twice, combine_dyn_gen called the list of
generators and get_timeslot_for_fidelity_calc returned the method itself.
---
 src/qutip_qtrl/dynamics.py  | 2 +-
 src/qutip_qtrl/propcomp.py  | 2 +-
 src/qutip_qtrl/tslotcomp.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index a0afd62..2203e66 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1216,7 +1216,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 7a893fd..c1bdccd 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..9294527 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -361,7 +361,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From 6693f558ffe2fcdc5b7f795cd526ab4c2501e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 10/67] fix: changing the phase option discards values
 calculated for the other one

---
 src/qutip_qtrl/fidcomp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index a4d81ba..73cb50d 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -321,6 +321,9 @@ class FidCompUnitary(FidelityComputer):
         self._init_phase_option(value)
 
     def _init_phase_option(self, value):
+        # Any values already calculated were for the previous option
+        self.fidelity_current = False
+        self.fid_err_grad_current = False
         self._phase_option = value
         if value == "PSU":
             self.fid_norm_func = self.normalize_PSU
-- 
2.43.0


From 6a245e290ef3e6f37c3cf7e331bb5d4867caca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 11/67] fix: onto_evo_target is that of the current target
 after a re-initialisation

---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 2203e66..69ba93e 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -814,6 +814,8 @@ class Dynamics(object):
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
             self._onto_evo[self.num_tslots] = self._get_onto_evo_target()
+        # The target may differ from that of any previous initialisation
+        self._onto_evo_target_qobj = None
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
-- 
2.43.0


From 26fd6bb429642a5509e0c33dfa69ca46fb385e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 12/67] fix: control amplitudes are copied, so that changes to
 them are detected

An amplitude array modified in place and submitted again was compared with
itself, and so the evolution was not recomputed.
---
 src/qutip_qtrl/tslotcomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 9294527..14325dd 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,9 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # Keep a copy, otherwise changes that the caller makes to their
+            # array could not be detected in later updates
+            dyn.ctrl_amps = np.array(new_amps)
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 5a11a15d7676e7b0a430abd06220e66fcacc5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 13/67] fix: unitarity checks work for every dynamics type and
 use their tolerance

---
 src/qutip_qtrl/dynamics.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 69ba93e..a275c86 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1478,11 +1478,15 @@ class Dynamics(object):
             unitary = np.allclose(
                 np.eye(A.shape[0]),
                 (A * A.dag()).full(),
+                rtol=0.0,
                 atol=self.unitarity_tol,
             )
         else:
             unitary = np.allclose(
-                np.eye(len(A)), A.dot(A.T.conj()), atol=self.unitarity_tol
+                np.eye(len(A)),
+                A.dot(A.T.conj()),
+                rtol=0.0,
+                atol=self.unitarity_tol,
             )
 
         return unitary
@@ -1505,6 +1509,14 @@ class Dynamics(object):
                     "Progator of timeslot {} is not unitary".format(k)
                 )
 
+    def check_unitarity(self):
+        """
+        Checks whether all propagators are unitary
+        This is called when the evolution is recomputed
+        if unitarity_check_level > 0
+        """
+        self.unitarity_check()
+
 
 class DynamicsGenMat(Dynamics):
     """
@@ -1718,14 +1730,19 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
-                if self._dyn_gen_eigenvectors_adj is not None:
-                    eigvecadj_unit = self._is_unitary(
-                        self._dyn_gen_eigenvectors_adj[k]
+                eigval_unit = None
+                eigvec_unit = None
+                eigvecadj_unit = None
+                # There is only an eigen basis when diagonalisation is used
+                if isinstance(self.prop_computer, propcomp.PropCompDiag):
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
                     )
-                else:
-                    eigvecadj_unit = None
+                    if self._dyn_gen_eigenvectors_adj is not None:
+                        eigvecadj_unit = self._is_unitary(
+                            self._dyn_gen_eigenvectors_adj[k]
+                        )
                 msg = (
                     "prop unit: {}; H herm: {}; "
                     "eigval unit: {}; eigvec unit: {}; "
-- 
2.43.0


From 06425602e8d0eff9b7b5a43bfc0152af7de7a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 14/67] fix: timeslot durations can be given as any sequence
 type

---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index a275c86..3e30a30 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -599,6 +599,8 @@ class Dynamics(object):
                 / self._num_tslots
             )
         else:
+            # The durations may be given as any sequence type
+            self._tau = np.array(self._tau, dtype=float)
             self._num_tslots = len(self._tau)
             self._evo_time = np.sum(self._tau)
 
-- 
2.43.0


From e4fae7c2d3e05034dc0b2310fa65437ebf8b00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 15/67] fix: BFGS results give the reason for which fmin_bfgs
 terminated

---
 src/qutip_qtrl/optimizer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..5ceda40 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -869,17 +869,26 @@ class OptimizerBFGS(Optimizer):
                 gtol=term_conds.min_gradient_norm,
                 maxiter=term_conds.max_iterations,
                 full_output=True,
-                disp=True,
+                disp=self.disp_conv_msg,
             )
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Desired error not necessarily achieved due to precision "
+                    "loss"
+                )
+            else:
+                result.termination_reason = (
+                    "NaN encountered in fidelity error or gradient"
+                )
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From fa2ebf8059a0c34344df2e867e8b357e228ff602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 16/67] fix: L-BFGS-B results flag a gradient minimum only when
 it was reached

---
 src/qutip_qtrl/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 5ceda40..af23317 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -1031,7 +1031,9 @@ class OptimizerLBFGSB(Optimizer):
             dyn.update_ctrl_amps(amps)
             warn = res_dict["warnflag"]
             if warn == 0:
-                result.grad_norm_min_reached = True
+                # May have converged in the function value or the gradient
+                if "GRADIENT" in str(res_dict["task"]).upper():
+                    result.grad_norm_min_reached = True
                 result.termination_reason = "function converged"
             elif warn == 1:
                 result.max_iter_exceeded = True
-- 
2.43.0


From 75c39bec5e7ef0e2295b16f4943cd1f5589c8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 17/67] fix: iterations counted in the stats are those
 completed

---
 src/qutip_qtrl/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index af23317..e1ae5f3 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -748,15 +748,15 @@ class Optimizer(object):
         if self.dump and self.dump.dump_summary:
             self.dump.add_iter_summary()
 
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
+
         tc = self.termination_conditions
 
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -836,7 +836,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -977,7 +977,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         bounds = self._build_bounds_list()
         result = self._create_result()
@@ -1240,7 +1240,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From 857dbfde11bb3e0dd26f5d4444e5be83182cb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 18/67] fix: optimisation results give the fidelity achieved

---
 src/qutip_qtrl/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index e1ae5f3..8060e67 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -782,6 +782,7 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        result.fidelity = 1 - result.fid_err
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps
         final_evo = dyn.full_evo
-- 
2.43.0


From 77d72ad1a9cb88f3b56c343006095ff035bdc6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 19/67] fix: results of generic methods flag the limit that
 ended the run

---
 src/qutip_qtrl/optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 8060e67..74c1aa9 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -592,6 +592,13 @@ class Optimizer(object):
             amps = self._get_ctrl_amps(opt_res.x)
             dyn.update_ctrl_amps(amps)
             result.termination_reason = opt_res.message
+            if not opt_res.success:
+                # The method may have stopped due to one of the limits
+                options = self.method_options
+                if self.num_iter >= options.get("maxiter", np.inf):
+                    result.max_iter_exceeded = True
+                elif self.num_fid_func_calls >= options.get("maxfev", np.inf):
+                    result.max_fid_func_exceeded = True
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
             if self.num_iter != opt_res.nit:
-- 
2.43.0


From 806cb94be2b194b54f8044b7fe127361886f5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 20/67] fix: termination conditions changed between runs are
 passed to the method

---
 src/qutip_qtrl/optimizer.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 74c1aa9..d176848 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -441,11 +441,16 @@ class Optimizer(object):
         It assumes that apply_method_params has already been run and
         hence the method_options attribute may already contain items.
         These values will NOT be overridden
+
+        Returns
+        -------
+        dict
+            The options for this run. The method_options attribute itself is
+            left as it is, otherwise later changes of the
+            termination_conditions would not have any effect
         """
         tc = self.termination_conditions
-        if self.method_options is None:
-            self.method_options = {}
-        mo = self.method_options
+        mo = dict(self.method_options or {})
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -561,7 +566,7 @@ class Optimizer(object):
         if self.bounds is None:
             self._build_bounds_list()
 
-        self._build_method_options()
+        options = self._build_method_options()
 
         result = self._create_result()
 
@@ -585,7 +590,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -594,7 +599,6 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             if not opt_res.success:
                 # The method may have stopped due to one of the limits
-                options = self.method_options
                 if self.num_iter >= options.get("maxiter", np.inf):
                     result.max_iter_exceeded = True
                 elif self.num_fid_func_calls >= options.get("maxfev", np.inf):
@@ -836,7 +840,6 @@ class OptimizerBFGS(Optimizer):
         term_conds = self.termination_conditions
         dyn = self.dynamics
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -977,7 +980,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -995,19 +998,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in options:
+            factr = options["accuracy_factor"]
+        elif "ftol" in options:
+            factr = options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in options:
+            m = options["max_metric_corr"]
+        elif "maxcor" in options:
+            m = options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
@@ -1240,7 +1243,6 @@ class OptimizerCrabFmin(OptimizerCrab):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
-- 
2.43.0


From 380a158b9b4ed6189775506162af53c443b3c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 21/67] fix: bounds set for individual parameters are kept,
 built ones are renewed

---
 src/qutip_qtrl/optimizer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index d176848..3de4a47 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -260,6 +260,7 @@ class Optimizer(object):
         self.amp_lbound = None
         self.amp_ubound = None
         self.bounds = None
+        self._built_bounds = None
         self.num_iter = 0
         self.num_fid_func_calls = 0
         self.num_grad_func_calls = 0
@@ -500,6 +501,17 @@ class Optimizer(object):
                 else:
                     self.method_options.update(unused_params)
 
+    def _init_bounds(self):
+        """
+        Build the list of bounds for the run, unless specific bounds have been
+        set. A list built for an earlier run is replaced, as the amplitude
+        bounds, controls or timeslots may have changed since
+        """
+        if self.bounds is None or self.bounds is self._built_bounds:
+            self.bounds = None
+            self._build_bounds_list()
+            self._built_bounds = self.bounds
+
     def _build_bounds_list(self):
         cfg = self.config
         dyn = self.dynamics
@@ -563,8 +575,7 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
+        self._init_bounds()
 
         options = self._build_method_options()
 
@@ -990,7 +1001,7 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        bounds = self._build_bounds_list()
+        self._init_bounds()
         result = self._create_result()
 
         if self.approx_grad:
-- 
2.43.0


From d0684df1118ac6d9ce75fbcd87cc0b432825103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 22/67] fix: termination exceptions can be displayed

---
 src/qutip_qtrl/errors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/errors.py b/src/qutip_qtrl/errors.py
index ba38ad3..9b181fe 100644
--- a/src/qutip_qtrl/errors.py
+++ b/src/qutip_qtrl/errors.py
@@ -47,7 +47,8 @@ class OptimizationTerminate(Error):
     Superclass for all early terminations from the optimisation algorithm
     """
 
-    pass
+    def __str__(self):
+        return repr(self.reason)
 
 
 class GoalAchievedTerminate(OptimizationTerminate):
-- 
2.43.0


From a744788c08bc4d17e222e9780a765deae0d61f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 23/67] fix: option dictionaries given by the user are not
 modified

---
 src/qutip_qtrl/pulseoptim.py | 48 ++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..c52773f 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -373,7 +373,9 @@ def optimize_pulse(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -384,7 +386,9 @@ def optimize_pulse(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -396,7 +400,7 @@ def optimize_pulse(
     if phase_option is not None:
         if isinstance(fid_params, dict):
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -408,7 +412,9 @@ def optimize_pulse(
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
             if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+                fid_params = dict(
+                    fid_params, scale_factor=fid_err_scale_factor
+                )
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
@@ -778,7 +784,9 @@ def optimize_pulse_unitary(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -789,7 +797,9 @@ def optimize_pulse_unitary(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -816,7 +826,7 @@ def optimize_pulse_unitary(
             fid_params = {"phase_option": phase_option}
         else:
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
 
     return optimize_pulse(
         drift=H_d,
@@ -1108,6 +1118,7 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = alg_params.copy()
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1120,7 +1131,9 @@ def opt_pulse_crab(
     # Any options passed in the guess_pulse_params take precedence
     # over the parameter values.
     if guess_pulse_type:
-        if not isinstance(guess_pulse_params, dict):
+        if isinstance(guess_pulse_params, dict):
+            guess_pulse_params = guess_pulse_params.copy()
+        else:
             guess_pulse_params = {}
         if (
             guess_pulse_scaling is not None
@@ -1421,6 +1434,7 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = alg_params.copy()
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1433,7 +1447,9 @@ def opt_pulse_crab_unitary(
     # Any options passed in the guess_pulse_params take precedence
     # over the parameter values.
     if guess_pulse_type:
-        if not isinstance(guess_pulse_params, dict):
+        if isinstance(guess_pulse_params, dict):
+            guess_pulse_params = guess_pulse_params.copy()
+        else:
             guess_pulse_params = {}
         if (
             guess_pulse_scaling is not None
@@ -1774,7 +1790,9 @@ def create_pulse_optimizer(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -1785,7 +1803,9 @@ def create_pulse_optimizer(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -1797,7 +1817,7 @@ def create_pulse_optimizer(
     if phase_option is not None:
         if isinstance(fid_params, dict):
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -1809,7 +1829,9 @@ def create_pulse_optimizer(
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
             if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+                fid_params = dict(
+                    fid_params, scale_factor=fid_err_scale_factor
+                )
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
-- 
2.43.0


From 5277245e9f493d66f1cb4de2064bae7ebf272bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 24/67] fix: scale_factor in fid_params has precedence over the
 deprecated parameter

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index c52773f..31219e3 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -411,7 +411,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params = dict(
                     fid_params, scale_factor=fid_err_scale_factor
                 )
@@ -1828,7 +1828,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params = dict(
                     fid_params, scale_factor=fid_err_scale_factor
                 )
-- 
2.43.0


From 09e9e5ebe73864f017d4cfc394a4124e268cca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 25/67] fix: algorithm name is not case sensitive in
 optimize_pulse

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 31219e3..c11f325 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -475,7 +475,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if _upper_safe(alg) == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
@@ -1977,7 +1977,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From 36afb3973b32290657df558308ec7a072ac6ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 26/67] fix: timeslot computer options reach the pulse
 optimizer

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index c11f325..7b2f508 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -459,6 +459,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -851,6 +853,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0


From f2496c30835acc200e846689265cb9246aa61cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 27/67] fix: documented fidelity type TD_APPROX is accepted

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 7b2f508..72e27b4 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1934,7 +1934,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From f7988d91810bf949f52b80e4d29faf5d6eda530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 28/67] fix: time dependent controls can be logged

---
 src/qutip_qtrl/pulseoptim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 72e27b4..a6afa47 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -502,8 +502,12 @@ def optimize_pulse(
             msg += "Drift {}:\n".format(dg_name)
             msg += str(dyn.drift_dyn_gen)
         for j in range(dyn.num_ctrls):
-            msg += "\nControl {} {}:\n".format(j + 1, dg_name)
-            msg += str(dyn.ctrl_dyn_gen[j])
+            if dyn.time_depend_ctrl_dyn_gen:
+                msg += "\nInitial control {} {}:\n".format(j + 1, dg_name)
+                msg += str(dyn.ctrl_dyn_gen[0, j])
+            else:
+                msg += "\nControl {} {}:\n".format(j + 1, dg_name)
+                msg += str(dyn.ctrl_dyn_gen[j])
         msg += "\nInitial state / operator:\n"
         msg += str(dyn.initial)
         msg += "\nTarget state / operator:\n"
-- 
2.43.0


From 8a413db189c15f9ad68c0972a7e59973d8f93408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 29/67] fix: CRAB amplitude bounds of zero are applied

---
 src/qutip_qtrl/pulseoptim.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index a6afa47..6ab9042 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -93,6 +93,18 @@ def _upper_safe(s):
     return s
 
 
+def _get_ctrl_bound(bound, j):
+    """
+    Get the amplitude bound for control j, where bound is either a scalar
+    that applies to all controls or a list of bounds for each control
+    """
+    if isinstance(bound, list):
+        if len(bound) == 0:
+            return None
+        return bound[j] if j < len(bound) else bound[-1]
+    return bound
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -2083,24 +2095,8 @@ def create_pulse_optimizer(
             if isinstance(crab_pulse_params, dict):
                 crab_pgen.apply_params(crab_pulse_params)
 
-            lb = None
-            if amp_lbound:
-                if isinstance(amp_lbound, list):
-                    try:
-                        lb = amp_lbound[j]
-                    except Exception:
-                        lb = amp_lbound[-1]
-                else:
-                    lb = amp_lbound
-            ub = None
-            if amp_ubound:
-                if isinstance(amp_ubound, list):
-                    try:
-                        ub = amp_ubound[j]
-                    except Exception:
-                        ub = amp_ubound[-1]
-                else:
-                    ub = amp_ubound
+            lb = _get_ctrl_bound(amp_lbound, j)
+            ub = _get_ctrl_bound(amp_ubound, j)
             crab_pgen.lbound = lb
             crab_pgen.ubound = ub
 
-- 
2.43.0


From 3df1803c1827be842227b0577f49e94dff634089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 30/67] fix: initial pulses obey bounds given for each control

---
 src/qutip_qtrl/pulseoptim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 6ab9042..1ff9468 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -497,6 +497,10 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            if isinstance(amp_lbound, list):
+                pgen.lbound = _get_ctrl_bound(amp_lbound, j)
+            if isinstance(amp_ubound, list):
+                pgen.ubound = _get_ctrl_bound(amp_ubound, j)
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
@@ -2121,8 +2125,10 @@ def create_pulse_optimizer(
         )
         pgen.scaling = pulse_scaling
         pgen.offset = pulse_offset
-        pgen.lbound = amp_lbound
-        pgen.ubound = amp_ubound
+        # The bounds may differ between the controls, optimize_pulse sets those
+        # of the specific control before generating its pulse
+        pgen.lbound = _get_ctrl_bound(amp_lbound, 0)
+        pgen.ubound = _get_ctrl_bound(amp_ubound, 0)
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From dff5d4f6515e32aa2cb0e18b75c1a9359f952151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 31/67] fix: init_pulse_params take precedence over the pulse
 parameters

---
 src/qutip_qtrl/pulseoptim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 1ff9468..70694f5 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2129,6 +2129,9 @@ def create_pulse_optimizer(
         # of the specific control before generating its pulse
         pgen.lbound = _get_ctrl_bound(amp_lbound, 0)
         pgen.ubound = _get_ctrl_bound(amp_ubound, 0)
+        if init_pulse_params is not None:
+            # These take precedence
+            pgen.apply_params(init_pulse_params)
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From d1c11c4fa2d29b943ab492e283c706c0bd625c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 32/67] fix: generated pulses are bounded correctly when a
 bound is infinite

---
 src/qutip_qtrl/pulsegen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..0996e5d 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -240,6 +240,13 @@ class PulseGen:
 
         self._pulse_initialised = True
 
+        self._check_bounds()
+
+    def _check_bounds(self):
+        """
+        Infinite bounds are no bounds. Bounds that exclude all values
+        are refused.
+        """
         if self.lbound is not None:
             if np.isinf(self.lbound):
                 self.lbound = None
@@ -257,6 +264,7 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
+        self._check_bounds()
         if self.lbound is None and self.ubound is None:
             return pulse + self.offset
 
-- 
2.43.0


From 472d6a3d999d0b1b091f08097fda7f4f8923e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 33/67] fix: number of waves follows from the frequency and
 pulse time

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 0996e5d..f4dcaab 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -743,10 +743,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From a9c3bec91e878f3879ea015030417a2d8cca3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 34/67] fix: linear pulses honour the gradient, start or end
 value given

---
 src/qutip_qtrl/pulsegen.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index f4dcaab..47ddbbf 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -639,6 +639,9 @@ class PulseGenLinear(PulseGen):
         self.start_val = -1.0
         self.end_val = 1.0
         self.apply_params()
+        if self.gradient is not None and "end_val" not in self.params:
+            # the gradient given defines the line
+            self.end_val = None
 
     def init_pulse(self, gradient=None, start_val=None, end_val=None):
         """
@@ -646,14 +649,23 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
+        elif gradient is not None:
+            # the end point follows from the gradient
+            self.gradient = gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
-            self.gradient = float(self.end_val - self.start_val) / (
-                self.pulse_time - self.tau[-1]
-            )
+            if self.num_tslots > 1:
+                self.gradient = float(self.end_val - self.start_val) / (
+                    self.pulse_time - self.tau[-1]
+                )
+            else:
+                # start and end of the line are the same point
+                self.gradient = 0.0
 
     def gen_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From 4bc666b3b1bd8f8d86518fced21130104c9b7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 35/67] fix: Gaussian pulse parameters of zero are not ignored

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 47ddbbf..43cf348 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -919,11 +919,11 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-        if variance:
+        if variance is not None:
             Tv = variance
         else:
             Tv = self.variance
@@ -967,7 +967,7 @@ class PulseGenGaussianEdge(PulseGen):
             self.init_pulse()
 
         t = self.time
-        if decay_time:
+        if decay_time is not None:
             Td = decay_time
         else:
             Td = self.decay_time
-- 
2.43.0


From bf926db9cc9c64f42bbf399dfb32c4e558b0202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 36/67] fix: random walk of the gradient is scaled and does not
 print

---
 src/qutip_qtrl/pulsegen.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 43cf348..20f981a 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -591,16 +591,14 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
 
         walk = np.zeros(self.tau.shape)
         amp = self.scaling * (np.random.rand() * 2 - 1)
-        print("Start amp {}".format(amp))
         grad = 0.0
-        print("Start grad {}".format(grad))
         for k in range(len(walk)):
             walk[k] = amp
             grad += (np.random.rand() * 2 - 1) * max_d2_amp
-- 
2.43.0


From f2e6b15d3ad014475a13955e0093ade422d03fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 37/67] fix: ignored guess pulse action is logged as a warning

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 20f981a..ee4d1ae 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1157,13 +1157,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From 15cda158745fe8f7a52ab6aa607964219a286e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 38/67] fix: CRAB pulse parameters are applied and coefficients
 can be given

---
 src/qutip_qtrl/pulsegen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index ee4d1ae..d4b66ad 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1150,8 +1150,8 @@ class PulseGenCrab(PulseGen):
         self.set_coeffs(param_vals)
 
     def set_coeffs(self, param_vals):
-        self.coeffs = param_vals.reshape(
-            [self.num_coeffs, self.num_basis_funcs]
+        self.coeffs = np.reshape(
+            param_vals, [self.num_coeffs, self.num_basis_funcs]
         )
 
     def init_guess_pulse(self):
@@ -1279,6 +1279,7 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.apply_params()
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
@@ -1316,12 +1317,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.set_coeffs(coeffs)
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From fbeb62986711d8d22627940fea3e4e8280ab9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 39/67] fix: limit that ended a simplex method is flagged in
 the result

---
 src/qutip_qtrl/optimizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 3de4a47..30f4e2e 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -610,9 +610,18 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             if not opt_res.success:
                 # The method may have stopped due to one of the limits
-                if self.num_iter >= options.get("maxiter", np.inf):
+                # Note that some methods count the first simplex as iteration
+                n_iter = max(self.num_iter, opt_res.get("nit", 0))
+                iter_limit = n_iter >= options.get("maxiter", np.inf)
+                func_limit = self.num_fid_func_calls >= options.get(
+                    "maxfev", np.inf
+                )
+                if iter_limit and func_limit:
+                    # The message tells which of them was met first
+                    iter_limit = "iteration" in str(opt_res.message).lower()
+                if iter_limit:
                     result.max_iter_exceeded = True
-                elif self.num_fid_func_calls >= options.get("maxfev", np.inf):
+                elif func_limit:
                     result.max_fid_func_exceeded = True
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
-- 
2.43.0


From fbbbeb5a9ef73fcb23270031338977bc8060ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 40/67] fix: dump files of onward and onto evolution hold those
 operators

---
 src/qutip_qtrl/dump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..b24c05b 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -916,7 +916,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for dg in self.dyn_gen:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -935,7 +935,7 @@ class EvoCompDumpItem(DumpItem):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From 75f9671cefddb4b0a9d9d3cea1735dcd8c4411d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 41/67] fix: dump items are written completely whatever is
 recorded and for Qobj

---
 src/qutip_qtrl/dump.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index b24c05b..de1ca76 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,8 @@ import os
 import copy
 import numpy as np
 
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -23,6 +25,11 @@ logger = qutip_qtrl.logging_utils.get_logger("qutip.control.dump")
 DUMP_DIR = "~/.qtrl_dump"
 
 
+def _as_array(oper):
+    """The ndarray form of an operator that may be a Qobj"""
+    return oper.full() if isinstance(oper, Qobj) else oper
+
+
 class Dump:
     """
     A container for dump items.
@@ -835,13 +842,13 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-dyn_gen.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for oper in self.dyn_gen:
                 f.write(
                     str.encode(
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -856,9 +863,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for oper in self.prop:
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -882,7 +889,9 @@ class EvoCompDumpItem(DumpItem):
                         )
                     )
                     np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
+                        f,
+                        _as_array(self.prop_grad[k, j]),
+                        delimiter=dump.data_sep,
                     )
             if closef:
                 f.close()
@@ -897,9 +906,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for oper in self.fwd_evo:
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -914,9 +923,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for oper in self.onwd_evo:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -931,11 +940,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for oper in self.onto_evo:
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, _as_array(oper), delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From d63a8dd7a62f2b8a7d5a38cdef7b25d6dbcdcc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 42/67] fix: custom dumping level can be selected

---
 src/qutip_qtrl/dump.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index de1ca76..6ff333e 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -100,6 +100,7 @@ class Dump:
         self.dump_file_ext = "txt"
         self._fname_base = "dump"
         self.dump_summary = True
+        self._custom_level = False
         self.summary_sep = " "
         self.data_sep = " "
         self._summary_file_path = None
@@ -144,8 +145,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
+        self._apply_level(value)
         self._level = value
-        self._apply_level()
 
     @property
     def dump_any(self):
@@ -300,12 +301,14 @@ class OptimDump(Dump):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._custom_level:
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            self._custom_level = True
+            level = "SUMMARY"
+        else:
+            self._custom_level = False
 
         if level == "SUMMARY":
             self.dump_summary = True
@@ -595,12 +598,14 @@ class DynamicsDump(Dump):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._custom_level:
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            self._custom_level = True
+            level = "SUMMARY"
+        else:
+            self._custom_level = False
 
         if level == "SUMMARY":
             self.dump_summary = True
-- 
2.43.0


From c325f4d93d74cbc440d04680fba370a8aab0ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 43/67] fix: full dumping covers the operators of the fidelity
 computer in use

---
 src/qutip_qtrl/dump.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 6ff333e..3e5c6c3 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -576,7 +576,7 @@ class DynamicsDump(Dump):
     @property
     def dump_all(self):
         """True if all of the calculation objects are to be dumped"""
-        dyn = self.parent
+        fid_comp = self.parent.fid_computer
         return all(
             [
                 self.dump_amps,
@@ -584,13 +584,12 @@ class DynamicsDump(Dump):
                 self.dump_prop,
                 self.dump_prop_grad,
                 self.dump_fwd_evo,
-                self.dump_onwd_evo == dyn.fid_computer.uses_onwd_evo,
-                self.dump_onto_evo == dyn.fid_computer.uses_onto_evo,
+                self.dump_onwd_evo or not fid_comp.uses_onwd_evo,
+                self.dump_onto_evo or not fid_comp.uses_onto_evo,
             ]
         )
 
     def _apply_level(self, level=None):
-        dyn = self.parent
         if level is None:
             level = self._level
 
@@ -623,8 +622,10 @@ class DynamicsDump(Dump):
             self.dump_prop = True
             self.dump_prop_grad = True
             self.dump_fwd_evo = True
-            self.dump_onwd_evo = dyn.fid_computer.uses_onwd_evo
-            self.dump_onto_evo = dyn.fid_computer.uses_onto_evo
+            # Only those that the fidelity computer uses at the time of the
+            # computation are dumped
+            self.dump_onwd_evo = True
+            self.dump_onto_evo = True
         else:
             raise ValueError("No option for dumping level '{}'".format(level))
 
@@ -644,9 +645,9 @@ class DynamicsDump(Dump):
             item.prop_grad = copy.deepcopy(dyn._prop_grad)
         if self.dump_fwd_evo:
             item.fwd_evo = copy.deepcopy(dyn._fwd_evo)
-        if self.dump_onwd_evo:
+        if self.dump_onwd_evo and dyn.fid_computer.uses_onwd_evo:
             item.onwd_evo = copy.deepcopy(dyn._onwd_evo)
-        if self.dump_onto_evo:
+        if self.dump_onto_evo and dyn.fid_computer.uses_onto_evo:
             item.onto_evo = copy.deepcopy(dyn._onto_evo)
 
         if self.write_to_file:
-- 
2.43.0


From 81f6224df5b069e838dfca22e2181cbc53d3066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 44/67] fix: dump file paths follow the dump directory and name
 base

---
 src/qutip_qtrl/dump.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 3e5c6c3..2da22ec 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -202,14 +202,15 @@ class Dump:
             raise ValueError("File name base must be a string")
         self._fname_base = value
         self._summary_file_path = None
+        self._summary_file_specified = False
 
     @property
     def summary_file(self):
-        if self._summary_file_path is None:
+        if not self._summary_file_specified:
             fname = "{}-summary.{}".format(
                 self._fname_base, self.dump_file_ext
             )
-            self._summary_file_path = os.path.join(self.dump_dir, fname)
+            return os.path.join(self.dump_dir, fname)
         return self._summary_file_path
 
     @summary_file.setter
@@ -217,9 +218,9 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
-        elif "~" in value:
+        elif value.startswith("~"):
             self._summary_file_path = os.path.expanduser(value)
         else:
             self._summary_file_path = os.path.join(self.dump_dir, value)
@@ -275,8 +276,6 @@ class OptimDump(Dump):
         self.grad_norm_log = []
         self.grad_log = []
         self._fname_base = "optimdump"
-        self._fid_err_file = None
-        self._grad_norm_file = None
 
     def clear(self):
         del self.iter_summary[:]
@@ -349,12 +348,8 @@ class OptimDump(Dump):
 
     @property
     def fid_err_file(self):
-        if self._fid_err_file is None:
-            fname = "{}-fid_err_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._fid_err_file = os.path.join(self.dump_dir, fname)
-        return self._fid_err_file
+        fname = "{}-fid_err_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_fid_err_log(self, fid_err):
         """add an entry to the fid_err log"""
@@ -370,12 +365,8 @@ class OptimDump(Dump):
 
     @property
     def grad_norm_file(self):
-        if self._grad_norm_file is None:
-            fname = "{}-grad_norm_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._grad_norm_file = os.path.join(self.dump_dir, fname)
-        return self._grad_norm_file
+        fname = "{}-grad_norm_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_grad_norm_log(self, grad_norm):
         """add an entry to the grad_norm log"""
-- 
2.43.0


From 21494f0b86cb6b19e5aeb490b5733808a77f71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 45/67] fix: unusable dump directory is not replaced by the
 default

---
 src/qutip_qtrl/dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 2da22ec..d63b20d 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -171,8 +171,9 @@ class Dump:
     @dump_dir.setter
     def dump_dir(self, value):
         self._dump_dir = value
-        if not self.create_dump_dir():
-            self._dump_dir = None
+        # If this fails then keep the name, rather than falling back to the
+        # default directory, which the user did not choose
+        self.create_dump_dir()
 
     def create_dump_dir(self):
         """
-- 
2.43.0


From 8cd7f91bcac9d88db5ec2b3ded875907b71bf684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 46/67] fix: relative directory names containing a tilde are
 made absolute

---
 src/qutip_qtrl/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 2010b23..3951172 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -21,9 +21,9 @@ def create_dir(dir_name, desc="output"):
         Error msg if directory creation failed
     """
     dir_ok = True
-    if "~" in dir_name:
-        dir_name = os.path.expanduser(dir_name)
-    elif not os.path.isabs(dir_name):
+    # This expands a leading ~ only, other names are left as they are
+    dir_name = os.path.expanduser(dir_name)
+    if not os.path.isabs(dir_name):
         # Assume relative path from cwd given
         dir_name = os.path.abspath(dir_name)
 
-- 
2.43.0


From c5ba7ffee9c996aa2a5176ddf3d22cbabc640d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 47/67] fix: directory name taken by something other than a
 file is reported

---
 src/qutip_qtrl/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 3951172..66f293a 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -30,7 +30,7 @@ def create_dir(dir_name, desc="output"):
     msg = "{} directory is ready".format(desc)
     errmsg = "Failed to create {} directory:\n{}\n".format(desc, dir_name)
     if os.path.exists(dir_name):
-        if os.path.isfile(dir_name):
+        if not os.path.isdir(dir_name):
             dir_ok = False
             errmsg += "A file already exists with the same name"
     else:
@@ -38,7 +38,7 @@ def create_dir(dir_name, desc="output"):
             os.makedirs(dir_name)
             msg += "directory {} created (recursively)".format(dir_name)
         except OSError as e:
-            if e.errno == errno.EEXIST:
+            if e.errno == errno.EEXIST and os.path.isdir(dir_name):
                 msg += (
                     "Assume directory {} created "
                     "(recursively) by some other process. ".format(dir_name)
-- 
2.43.0


From 8a2d5bd919eb235881a3b00f9e2ce871b870666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 48/67] fix: propagator logging at the most verbose level

---
 src/qutip_qtrl/tslotcomp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 14325dd..0c83c93 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -283,9 +283,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
-                                ),
+                                "propagator {}:\n{}".format(k, dyn._prop[k]),
                             )
                     else:
                         dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
-- 
2.43.0


From 152d687e84841c7d0055f20497521e725188df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 49/67] fix: GRAPE returns the propagator of the final controls

---
 src/qutip_qtrl/grape.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..a1ca9b2 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -93,6 +93,15 @@ def _overlap(A, B):
     return (A.dag() * B).tr() / A.shape[0]
 
 
+def _final_propagator(U, H0, H_ops, u, dt):
+    """The unitary generated by the control pulses u (controls x times)"""
+    U_f = qeye(U.dims[0])
+    for m in range(u.shape[1] - 1):
+        H = H0 + sum([u[j, m] * H_ops[j] for j in range(len(H_ops))])
+        U_f = (-1j * H * dt).expm() @ U_f
+    return U_f
+
+
 def grape_unitary(
     U,
     H0,
@@ -262,8 +271,8 @@ def grape_unitary(
 
     progress_bar.finished()
 
-    # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    U_f = _final_propagator(U, H0, H_ops, u[-1], times[1] - times[0])
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -445,7 +454,8 @@ def cy_grape_unitary(
 
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    U_f = _final_propagator(U, H0, H_ops, u[-1], times[1] - times[0])
+    return GRAPEResult(u=u, U_f=Qobj(U_f, dims=U.dims), H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
-- 
2.43.0


From aeb3b56e8381c6a90f50de3a29b76f546204f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 50/67] fix: GRAPE time penalty is the same in all
 implementations

---
 src/qutip_qtrl/grape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index a1ca9b2..494208c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -239,7 +239,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
@@ -641,7 +641,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From d1a425468c85d220775cba013df36fbac75b04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 51/67] fix: adaptive GRAPE continues from and returns the best
 controls

---
 src/qutip_qtrl/grape.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 494208c..9981d40 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -558,13 +558,13 @@ def grape_unitary_adaptive(
             return abs(x) ** 2
 
     best_k = 1
-    _r = 0
+    n_rows = 1
     _prev_overlap = 0
 
     for r in range(R - 1):
         progress_bar.update()
 
-        _r = r
+        n_rows = r + 2
         eps_log[r] = eps_vec[best_k]
 
         logger.debug("eps_vec: {}".format(eps_vec))
@@ -621,6 +621,11 @@ def grape_unitary_adaptive(
         logger.debug("Time 2: %fs" % (time.time() - _t0))
         _t0 = time.time()
 
+        if r == 0:
+            _prev_overlap = _fidelity_function(
+                cy_overlap(U_f.data, U.data)
+            ).real
+
         for j in range(J):
             for m in range(M - 1):
                 P = U_b_list[m] @ U
@@ -687,6 +692,8 @@ def grape_unitary_adaptive(
                 eps_vec *= 2
 
             _prev_overlap = _k_overlap[best_k]
+            # The next step starts from the best of the candidates
+            u[r + 1] = u[r + 1, :, :, best_k, np.newaxis]
 
         overlap_log[r] = _k_overlap[best_k]
 
@@ -702,10 +709,10 @@ def grape_unitary_adaptive(
         ip_funcs = [
             interp1d(
                 times,
-                u[_r, j, :, best_k],
+                u[n_rows - 1, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[n_rows - 1, j, -1, best_k],
             )
             for j in range(J)
         ]
@@ -714,11 +721,18 @@ def grape_unitary_adaptive(
             [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
         ]
     else:
-        H_td_func = [H0] + [[H_ops[j], u[_r, j, :, best_k]] for j in range(J)]
+        H_td_func = [H0] + [
+            [H_ops[j], u[n_rows - 1, j, :, best_k]] for j in range(J)
+        ]
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    U_f = _final_propagator(
+        U, H0, H_ops, u[n_rows - 1, :, :, best_k], times[1] - times[0]
+    )
+    result = GRAPEResult(
+        u=u[:n_rows, :, :, best_k], U_f=U_f, H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From 3f4a176159571e13f243c1431564879ca5b38591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 52/67] fix: GRAPE limits can be combined with start pulses

---
 src/qutip_qtrl/grape.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 9981d40..a414877 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -160,15 +160,15 @@ def grape_unitary(
 
     u = np.zeros((R, J, M))
 
-    if u_limits and len(u_limits) != 2:
+    if u_limits is not None and len(u_limits) != 2:
         raise ValueError("u_limits must be a list with two values")
 
-    if u_limits:
+    if u_limits is not None:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits is not None and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -243,7 +243,7 @@ def grape_unitary(
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
-                if u_limits:
+                if u_limits is not None:
                     if u[r + 1, j, m] < u_limits[0]:
                         u[r + 1, j, m] = u_limits[0]
                     elif u[r + 1, j, m] > u_limits[1]:
@@ -336,19 +336,19 @@ def cy_grape_unitary(
 
     H_ops_data = [H_op.data for H_op in H_ops]
 
-    if u_limits and len(u_limits) != 2:
+    if u_limits is not None and len(u_limits) != 2:
         raise ValueError("u_limits must be a list with two values")
 
-    if u_limits:
+    if u_limits is not None:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits is not None and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
-    if u_limits:
+    if u_limits is not None:
         use_u_limits = 1
         u_min = u_limits[0]
         u_max = u_limits[1]
@@ -527,15 +527,15 @@ def grape_unitary_adaptive(
 
     u = np.zeros((R, J, M, K))
 
-    if u_limits and len(u_limits) != 2:
+    if u_limits is not None and len(u_limits) != 2:
         raise ValueError("u_limits must be a list with two values")
 
-    if u_limits:
+    if u_limits is not None:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits is not None and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -651,7 +651,7 @@ def grape_unitary_adaptive(
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
 
-                    if u_limits:
+                    if u_limits is not None:
                         if u[r + 1, j, m, k] < u_limits[0]:
                             u[r + 1, j, m, k] = u_limits[0]
                         elif u[r + 1, j, m, k] > u_limits[1]:
-- 
2.43.0


From 3396d73062ee71f813030a8e29ca8c6a0cfb6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 53/67] fix: interpolated GRAPE Hamiltonian is usable

---
 src/qutip_qtrl/grape.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index a414877..a32e7c7 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -93,6 +93,11 @@ def _overlap(A, B):
     return (A.dag() * B).tr() / A.shape[0]
 
 
+def _interp_coeff(ip_func):
+    """Coefficient function of a time-dependent Hamiltonian"""
+    return lambda t: float(ip_func(t))
+
+
 def _final_propagator(U, H0, H_ops, u, dt):
     """The unitary generated by the control pulses u (controls x times)"""
     U_f = qeye(U.dims[0])
@@ -264,7 +269,7 @@ def grape_unitary(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], _interp_coeff(ip_funcs[j])] for j in range(J)
         ]
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
@@ -447,7 +452,7 @@ def cy_grape_unitary(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], _interp_coeff(ip_funcs[j])] for j in range(J)
         ]
     else:
         H_td_func = [H0] + [[H_ops[j], u[-1, j, :]] for j in range(J)]
@@ -718,7 +723,7 @@ def grape_unitary_adaptive(
         ]
 
         H_td_func = [H0] + [
-            [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
+            [H_ops[j], _interp_coeff(ip_funcs[j])] for j in range(J)
         ]
     else:
         H_td_func = [H0] + [
-- 
2.43.0


From 6d72041213c67ada67f506b54bd1f056cf2a15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 54/67] fix: pulse generators can be used with timeslot
 durations only

---
 src/qutip_qtrl/pulsegen.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d4b66ad..04162c8 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -199,6 +199,22 @@ class PulseGen:
             for key in params:
                 setattr(self, key, params[key])
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, tau):
+        """
+        Set the timeslot durations. The number of timeslots and the total
+        time follow from these.
+        """
+        if tau is not None:
+            tau = np.asarray(tau)
+            self.num_tslots = len(tau)
+            self.pulse_time = float(np.sum(tau))
+        self._tau = tau
+
     @property
     def log_level(self):
         return logger.level
@@ -227,7 +243,7 @@ class PulseGen:
         Initialise the pulse parameters
         """
         if self.tau is None:
-            self.tau = (
+            self._tau = (
                 np.ones(self.num_tslots, dtype="f")
                 * self.pulse_time
                 / self.num_tslots
-- 
2.43.0


From 9290751862a1ed146d26e98853ac142bf9123d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 55/67] fix: text and float parameters keep their type when
 loaded from a file

---
 src/qutip_qtrl/loadparams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..799051a 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -182,7 +182,7 @@ def set_param(parser, section, option, obj, attrib_name):
             f = parser.getfloat(section, attrib_name)
         except:
             try:
-                f = eval(val)
+                f = float(eval(val))
             except:
                 raise ValueError(
                     "Value '{}' cannot be cast or evaluated as a "
@@ -218,6 +218,8 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, b)
+    elif dtype == str:
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From b9a437f916c6fc4e08ff6f8f2c7c9e2470491c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 56/67] fix: prop_type attribute of the configuration is
 initialised

---
 src/qutip_qtrl/optimconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimconfig.py b/src/qutip_qtrl/optimconfig.py
index c5943c4..028782c 100644
--- a/src/qutip_qtrl/optimconfig.py
+++ b/src/qutip_qtrl/optimconfig.py
@@ -61,7 +61,7 @@ class OptimConfig(object):
         self.alg = "GRAPE"  # Alts: 'CRAB'
         self.optim_method = "DEF"
         self.dyn_type = "DEF"
-        self.fid_type = "DEF"
+        self.prop_type = "DEF"
         self.fid_type = "DEF"
         self.tslot_type = "DEF"
         self.init_pulse_type = "DEF"
-- 
2.43.0


From 922a44678c86cd318b709bc06549c0a8e3cf3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 57/67] fix: whole numbers loaded for unset attributes are
 integers

---
 src/qutip_qtrl/loadparams.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 799051a..5b2f6b4 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -221,12 +221,11 @@ def set_param(parser, section, option, obj, attrib_name):
     elif dtype == str:
         setattr(obj, attrib_name, val)
     else:
-        try:
-            val = parser.getfloat(section, attrib_name)
-        except:
+        for get_val in (parser.getint, parser.getfloat, parser.getboolean):
             try:
-                val = parser.getboolean(section, attrib_name)
-            except:
+                val = get_val(section, attrib_name)
+                break
+            except ValueError:
                 pass
 
         setattr(obj, attrib_name, val)
-- 
2.43.0


From fb6efbe06fdeba60898500f21be3bd3eadeb4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 58/67] fix: refuse operators of missing or mismatched number
 and shape before the evolution is initialised

---
 src/qutip_qtrl/dynamics.py | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 3e30a30..544d446 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -84,6 +84,9 @@ def _check_ctrls_container(ctrls):
     else:
         raise TypeError("Controls list or array not set correctly")
 
+    if len(ctrls) == 0:
+        raise ValueError("There must be at least one control")
+
     return ctrls
 
 
@@ -92,6 +95,8 @@ def _check_drift_dyn_gen(drift):
         return
     if not isinstance(drift, (list, tuple)):
         raise TypeError("drift should be a Qobj or a list of Qobj")
+    if len(drift) == 0:
+        raise ValueError("The drift list must not be empty")
     for d in drift:
         if not isinstance(d, Qobj):
             raise TypeError("drift should be a Qobj or a list of Qobj")
@@ -715,6 +720,47 @@ class Dynamics(object):
 
         return self.oper_dtype
 
+    def _check_evo_shapes(self):
+        """
+        Check that there are dynamics generators for every timeslot,
+        and that the shapes of all the evolution operators match
+        """
+        drift = self.drift_dyn_gen
+        if isinstance(drift, Qobj):
+            dyn_gens = [drift]
+        elif len(drift) < self.num_tslots:
+            raise ValueError(
+                "The drift list must have an element for each timeslot"
+            )
+        else:
+            dyn_gens = list(drift)
+
+        ctrls = self.ctrl_dyn_gen
+        if isinstance(ctrls, np.ndarray):
+            if len(ctrls) < self.num_tslots:
+                raise ValueError(
+                    "The controls array must have a row for each timeslot"
+                )
+            dyn_gens.extend(ctrls.flat)
+        else:
+            dyn_gens.extend(ctrls)
+
+        if self.target.shape != self.initial.shape:
+            raise ValueError(
+                "target shape {} does not match initial shape {}".format(
+                    self.target.shape, self.initial.shape
+                )
+            )
+        dyn_shape = (self.initial.shape[0], self.initial.shape[0])
+        for dyn_gen in dyn_gens:
+            if dyn_gen.shape != dyn_shape:
+                raise ValueError(
+                    "drift or control shape {} does not match "
+                    "initial shape {}".format(
+                        dyn_gen.shape, self.initial.shape
+                    )
+                )
+
     def _init_evo(self):
         """
         Create the container lists / arrays for the:
@@ -735,6 +781,7 @@ class Dynamics(object):
         if not isinstance(self.target, Qobj):
             raise TypeError("target must be a Qobj")
 
+        self._check_evo_shapes()
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
-- 
2.43.0


From ca609b1c68c25362aa3d36af4034eea444698476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 59/67] fix: report failure when a directory name behind a
 broken link could not be created

---
 src/qutip_qtrl/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 66f293a..3c520ea 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -36,6 +36,11 @@ def create_dir(dir_name, desc="output"):
     else:
         try:
             os.makedirs(dir_name)
+            if not os.path.isdir(dir_name):
+                # e.g. the name ends in '/.' and follows a broken link
+                raise NotADirectoryError(
+                    errno.ENOTDIR, os.strerror(errno.ENOTDIR), dir_name
+                )
             msg += "directory {} created (recursively)".format(dir_name)
         except OSError as e:
             if e.errno == errno.EEXIST and os.path.isdir(dir_name):
-- 
2.43.0


From 229a4d021efd68f2e94065a81767d70ca59d8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 60/67] fix: gradient factors of nearly degenerate energies
 lose their digits

The quotient of the differences of exponentials and exponents has no correct
digits left for close eigenvalues above the degeneracy threshold. Use the
equivalent product of exponential and sinc.
---
 src/qutip_qtrl/dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 544d446..ab02cfc 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1707,15 +1707,15 @@ class DynamicsUnitary(Dynamics):
         eig_val_diffs = eig_val_cols - eig_val_cols.T
         # repeat for the propagator
         prop_eig_cols = prop_eig * o
-        prop_eig_diffs = prop_eig_cols - prop_eig_cols.T
         # the factor matrix is the elementwise quotient of the
         # differeneces between the exponentiated eigen vals and the
         # differences between the eigen vals
-        # need to avoid division by zero that would arise due to denegerate
-        # eigenvalues and the diagonals
+        # This is calculated as exp((a + b)/2)*sinh((a - b)/2)/((a - b)/2)
+        # as the differences lose all digits for close eigen vals
         degen_mask = np.abs(eig_val_diffs) < self.fact_mat_round_prec
-        eig_val_diffs[degen_mask] = 1
-        factors = prop_eig_diffs / eig_val_diffs
+        factors = np.exp((eig_val_cols + eig_val_cols.T) / 2) * np.sinc(
+            1j * eig_val_diffs / (2 * np.pi)
+        )
         # for degenerate eigenvalues the factor is just the exponent
         factors[degen_mask] = prop_eig_cols[degen_mask]
 
-- 
2.43.0


From 88fa54c23241b9fdcb0b2de782136e3647bc9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 61/67] fix: Hamiltonians changed by their own names take
 effect when the controls are initialised again

---
 src/qutip_qtrl/dynamics.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index ab02cfc..dd36bf4 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1609,6 +1609,8 @@ class DynamicsUnitary(Dynamics):
         self.id_text = "UNIT"
         self.drift_ham = None
         self.ctrl_ham = None
+        self._mapped_drift_ham = None
+        self._mapped_ctrl_ham = None
         self.H = None
         self._dyn_gen_phase = -1j
         self._phase_application = "preop"
@@ -1637,14 +1639,22 @@ class DynamicsUnitary(Dynamics):
         Dynamics.initialize_controls(self, amplitudes, init_tslots=init_tslots)
 
     def _map_dyn_gen_to_ham(self):
-        if self.drift_dyn_gen is None:
+        # The _ham attributes may have been changed since they were mapped
+        remapped = self._dyn_gen_mapped
+        if self.drift_dyn_gen is None or (
+            remapped and self.drift_ham is not self._mapped_drift_ham
+        ):
             self.drift_dyn_gen = self.drift_ham
         else:
             self.drift_ham = self.drift_dyn_gen
-        if self.ctrl_dyn_gen is None:
+        if self.ctrl_dyn_gen is None or (
+            remapped and self.ctrl_ham is not self._mapped_ctrl_ham
+        ):
             self.ctrl_dyn_gen = self.ctrl_ham
         else:
             self.ctrl_ham = self.ctrl_dyn_gen
+        self._mapped_drift_ham = self.drift_ham
+        self._mapped_ctrl_ham = self.ctrl_ham
         self._dyn_gen_mapped = True
 
     @property
-- 
2.43.0


From 71cf804d6ce45b7488b3aeb6ddd75bc2ccbd5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 62/67] fix: trace difference scale factor changed or
 calculated for another system is not kept

---
 src/qutip_qtrl/fidcomp.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 73cb50d..a4d0270 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -583,13 +583,25 @@ class FidCompTraceDiff(FidelityComputer):
             )
         self.apply_params()
 
+    @property
+    def scale_factor(self):
+        return self._scale_factor
+
+    @scale_factor.setter
+    def scale_factor(self, value):
+        self._scale_factor = value
+        self._scale_factor_calculated = False
+        # Any values already calculated were for the previous factor
+        self.flag_system_changed()
+
     def init_comp(self):
         """
         initialises the computer based on the configuration of the Dynamics
         Calculates the scale_factor is not already set
         """
-        if self.scale_factor is None:
+        if self.scale_factor is None or self._scale_factor_calculated:
             self.scale_factor = 1.0 / (2.0 * self.parent.get_drift_dim())
+            self._scale_factor_calculated = True
             if self.log_level <= logging.DEBUG:
                 logger.debug(
                     "Scale factor calculated as {}".format(self.scale_factor)
-- 
2.43.0


From 3d7f91a46160c32d390320111f3487db33bceeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 63/67] fix: decomposition lists of a propagator computer used
 previously are discarded

---
 src/qutip_qtrl/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index dd36bf4..dc0b0e8 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -868,6 +868,9 @@ class Dynamics(object):
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
+        else:
+            # Discard any created for a propagator computer used previously
+            self._decomp_curr = None
 
         if self.log_level <= logging.DEBUG and isinstance(
             self, DynamicsUnitary
-- 
2.43.0


From 3b7c1cd192060b1da943abb7292adafcd734f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 64/67] fix: cached generators and gradients are discarded when
 the controls are initialised again

---
 src/qutip_qtrl/dynamics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index dc0b0e8..ed064ef 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -830,6 +830,12 @@ class Dynamics(object):
                 " numpy.ndarray.".format(self.oper_dtype)
             )
 
+        # Discard anything cached with the settings of a previous initialisation
+        self._phased_ctrl_dyn_gen = None
+        self._phased_dyn_gen = None
+        self._prop_grad = None
+        self._dyn_gen_eigenvectors_adj = None
+
         if self.cache_phased_dyn_gen:
             if self.time_depend_ctrl_dyn_gen:
                 self._phased_ctrl_dyn_gen = np.empty(
-- 
2.43.0


From 06470035e2076027fae9e2315cbc92f1bb5f5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 65/67] fix: amplitude bounds of zero in the configuration are
 not ignored

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 30f4e2e..38fce8f 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -274,10 +274,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From 2bd935d0cafb1b195ed62f2d0e67ea382baf6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 66/67] fix: parameters given to the optimiser classes are not
 overwritten by their defaults

---
 src/qutip_qtrl/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 38fce8f..60c72f9 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -836,6 +836,7 @@ class OptimizerBFGS(Optimizer):
     def reset(self):
         Optimizer.reset(self)
         self.id_text = "BFGS"
+        self.apply_params()
 
     def run_optimization(self, term_conds=None):
         """
@@ -948,6 +949,7 @@ class OptimizerLBFGSB(Optimizer):
         Optimizer.reset(self)
         self.id_text = "LBFGSB"
         self.max_metric_corr = 10
+        self.apply_params()
 
     def init_optim(self, term_conds):
         """
@@ -1102,6 +1104,7 @@ class OptimizerCrab(Optimizer):
         Optimizer.reset(self)
         self.id_text = "CRAB"
         self.num_optim_vars = 0
+        self.apply_params()
 
     def init_optim(self, term_conds):
         """
@@ -1235,6 +1238,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         self.id_text = "CRAB_FMIN"
         self.xtol = 1e-4
         self.ftol = 1e-4
+        self.apply_params()
 
     def run_optimization(self, term_conds=None):
         """
-- 
2.43.0


From 7080ac1cec7b88e396e1607ed16c9364d88e3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 67/67] fix: the phase application of the base dynamics
 defaults to 'preop' as documented

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index ed064ef..29743cb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -389,7 +389,7 @@ class Dynamics(object):
         self._ctrl_dyn_gen = None
         self._phased_ctrl_dyn_gen = None
         self._dyn_gen_phase = None
-        self._phase_application = None
+        self._phase_application = "preop"
         self._initial = None
         self._target = None
         self._onto_evo_target = None
-- 
2.43.0

