From 4ea563640b547d5a13bf120258a6ad50edad157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 01/39] fix: integrate the mass of 3d scalar forms over three
 dimensions

The einsum of mass_m3n3k0 and mass_m3n3k3 had the subscripts of the 2d
version, so f[t].mass() raised ValueError for every 3d scalar form.
---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 5180db1841edb2b363d67978f216ee8a94f755cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 02/39] fix: raise an Exception, not a str, when there are more
 ranks than elements

---
 msehtt/static/mesh/great/config/vtu.py | 2 +-
 msehtt/static/mesh/great/main.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/config/vtu.py b/msehtt/static/mesh/great/config/vtu.py
index d484eb7..a263af3 100644
--- a/msehtt/static/mesh/great/config/vtu.py
+++ b/msehtt/static/mesh/great/config/vtu.py
@@ -103,7 +103,7 @@ class MseHttVtuInterface(Frozen):
 
                 if distribution_method == 'Naive':
                     if num_total_elements < SIZE:
-                        raise r"number of elements is lower than SIZE, reduce SIZE."
+                        raise Exception("number of elements is lower than SIZE, reduce SIZE.")
 
                     elif SIZE == 1:
                         element_distribution[0] = list(self._global_element_type_dict.keys())
diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 101886f..cf49c97 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -781,7 +781,7 @@ class MseHttGreatMesh(Frozen):
                 num_total_elements = len(elements_indices)
 
                 if num_total_elements < SIZE:
-                    raise r"number of elements is lower than SIZE, reduce SIZE."
+                    raise Exception("number of elements is lower than SIZE, reduce SIZE.")
                 elif num_total_elements == SIZE:
                     for rank, e in enumerate(all_element_type_dict):
                         element_distribution[rank] = [e]
-- 
2.43.0


From 0cc9a94da4967c08c9bc3520fedbc5fc2caf31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 03/39] fix: do not leave the last ranks without elements when
 distributing a msepy mesh

---
 msehtt/static/mesh/great/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index cf49c97..89df1ad 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -797,9 +797,11 @@ class MseHttGreatMesh(Frozen):
                             num_piles = 3 * (SIZE - 1) + 1  # master rank takes 1 pile, other ranks take 3 piles each.
                             num_elements_each_pile = num_total_elements / num_piles  # OK to be decimal
                             start = 0
+                            taken_num_piles = 0
                             for rank in range(SIZE):
-                                take_num_piles = 1 if rank == MASTER_RANK else 3
-                                end = int(start + take_num_piles * num_elements_each_pile) + 1
+                                taken_num_piles += 1 if rank == MASTER_RANK else 3
+                                # round the total taken so far, so that the last ranks do not run out of elements
+                                end = round(taken_num_piles * num_elements_each_pile)
                                 element_distribution[rank] = elements_indices[start:end]
                                 start = end
 
-- 
2.43.0


From a30cf3d055b58f95bfe57c82fa6199e22011a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 04/39] fix: do not leave ranks without elements when
 distributing a vtu mesh

---
 msehtt/static/mesh/great/config/vtu.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/msehtt/static/mesh/great/config/vtu.py b/msehtt/static/mesh/great/config/vtu.py
index a263af3..a2187a5 100644
--- a/msehtt/static/mesh/great/config/vtu.py
+++ b/msehtt/static/mesh/great/config/vtu.py
@@ -260,6 +260,18 @@ def ___master_rank_distribute___(coo_dict, map_dict):
                 remaining_elements.remove(e)
 
     assert len(remaining_elements) == 0 and len(distributed_elements) == num_total_elements, f"must be!"
+
+    for empty_rank in range(SIZE):
+        if len(element_distribution[empty_rank]) == 0:  # take one element from a rank having more than one
+            for rank in range(SIZE):
+                if len(element_distribution[rank]) > 1:
+                    element_distribution[empty_rank] = [element_distribution[rank].pop()]
+                    break
+                else:
+                    pass
+        else:
+            pass
+
     return element_distribution
 
 
-- 
2.43.0


From 0c8403cbcfe13acd57e4cc2690a0e1ac2984a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 05/39] fix: find the chained numbering of a composition's
 global dof at the dof's own local position

---
 msehtt/tools/gathering_matrix.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index ac3a580..d993bca 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -304,7 +304,19 @@ class MseHttGatheringMatrix(Frozen):
         And 1536 will be returned in all ranks. So, this method should be called at the same time
         in all ranks with the same inputs.
         """
-        e, i = self._gms[ith_composition].find_representative_location(locally_global_dof)
+        gm = self._gms[ith_composition]
+        representative_rank, e = gm.find_representative_location(locally_global_dof)
+        i = None
+        if RANK == representative_rank:
+            for element, local_dof in gm.find_rank_locations_of_global_dofs(locally_global_dof)[locally_global_dof]:
+                if element == e:
+                    i = local_dof
+                    break
+                else:
+                    pass
+        else:
+            pass
+        i = COMM.bcast(i, root=representative_rank)
         return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, e, i)
 
     def find_global_numbering_of_ith_composition_local_dof(
-- 
2.43.0


From 6b0cf718deec7474869ac8b0df6762e3f67d260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 06/39] fix: read the initial guess of a fixed global dof at
 its local position in Picard iterations

---
 .../nonlinear_system/static/solve/Picard.py      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/msehtt/tools/nonlinear_system/static/solve/Picard.py b/msehtt/tools/nonlinear_system/static/solve/Picard.py
index 76a025a..4eb1868 100644
--- a/msehtt/tools/nonlinear_system/static/solve/Picard.py
+++ b/msehtt/tools/nonlinear_system/static/solve/Picard.py
@@ -13,7 +13,7 @@ from phyem.msehtt.tools.linear_system.static.local.main import MseHttStaticLocal
 from phyem.msehtt.tools.nonlinear_system.static.solve.Newton_Raphson import _check_stop_criterion_
 from phyem.msehtt.tools.vector.static.local import concatenate
 
-from phyem.src.config import COMM, MPI
+from phyem.src.config import COMM, MPI, RANK
 
 
 class MseHtt_NonlinearSystem_Picard(Frozen):
@@ -184,11 +184,17 @@ class MseHtt_NonlinearSystem_Picard(Frozen):
 
                     the_unknown = xi[ith_unknown]
                     the_gm = the_unknown._gm
-                    e, local_dof = the_gm.find_representative_location(global_dof)
-                    if e in the_unknown:
-                        initial_guess = the_unknown[e][global_dof]
+                    representative_rank, e = the_gm.find_representative_location(global_dof)
+                    initial_guess = 0
+                    if RANK == representative_rank:
+                        for element, local_dof in the_gm.find_rank_locations_of_global_dofs(global_dof)[global_dof]:
+                            if element == e:
+                                initial_guess = the_unknown[e][local_dof]
+                                break
+                            else:
+                                pass
                     else:
-                        initial_guess = 0
+                        pass
                     initial_guess = COMM.allreduce(initial_guess, op=MPI.SUM)
 
                     if insert_place == -1:
-- 
2.43.0


From e0b21244168dd39846995ef800f4a0331641f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 07/39] fix: import the 3d inner natural boundary condition
 from the package

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
-- 
2.43.0


From 891e646c374efa59e7dcf5115653e12f05fb4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 08/39] fix: let gmres and lgmres run with a single direction
 per cycle

---
 msehtt/tools/linear_system/static/global_/solvers/mpi_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index ce503e1..c8008ee 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -183,7 +183,7 @@ def gmres(
                 if j < restart - 1:
                     v_jp1 = hat_v_jp1 / Hm[j+1, j]
                 else:
-                    del v_jp1
+                    pass  # there is no next direction (and, for restart=1, there was no previous one)
 
             else:
                 if j == 0:
@@ -418,7 +418,7 @@ def lgmres(
                 if j < restart - 1:
                     v_jp1 = hat_v_jp1 / Hm[j + 1, j]
                 else:
-                    del v_jp1
+                    pass  # there is no next direction (and, for restart=1, there was no previous one)
 
             else:
                 if j == 0:
-- 
2.43.0


From df0f46452ca5f977a676850f90d8cc85a34f45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 09/39] fix: replace the iterator cache file in one piece

---
 tools/iterator/main.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..708fb53 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -243,10 +243,7 @@ class Iterator(Frozen):
                     'cache count': 0,
                 }
 
-                with open(cache_filename, 'wb') as output:
-                    # noinspection PyTypeChecker
-                    pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
-                output.close()
+                self._write_cache_file(cache_filename, cache_dict)
 
             # We check the cache file
             self._check_cache(self._cache_filename_)
@@ -296,6 +293,15 @@ class Iterator(Frozen):
         for i, obj in enumerate(self._cache_objs_):
             assert obj.name == obj_names[i], f"obj:{obj.name} is not in the cache."
 
+    @staticmethod
+    def _write_cache_file(cache_filename, cache_dict):
+        r"""Replace the cache file as a whole, such that a program killed while caching leaves the previous one."""
+        temporary_filename = cache_filename + '.tmp'
+        with open(temporary_filename, 'wb') as output:
+            # noinspection PyTypeChecker
+            pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
+        os.replace(temporary_filename, cache_filename)
+
     def _decoding_objs_(self, all_obj_data):
         r"""`_read_cache_data` must could take data only from the master rank."""
         if RANK == MASTER_RANK:
@@ -651,10 +657,7 @@ class Iterator(Frozen):
                             'log': log,
                             'cache_count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
-                            # noinspection PyTypeChecker
-                            pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
-                        cf.close()
+                        self._write_cache_file(self._cache_filename_, cache_dict)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 9db37be04c2261c741f868f61563611ff9c061aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 10/39] fix: store the number of caches under the key it is
 read from

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 708fb53..a6db2a2 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -655,7 +655,7 @@ class Iterator(Frozen):
                             'RES': cache_res,
                             'cache data': obj_coding_data,
                             'log': log,
-                            'cache_count': cache_count
+                            'cache count': cache_count
                         }
                         self._write_cache_file(self._cache_filename_, cache_dict)
                         # noinspection PyUnboundLocalVariable
-- 
2.43.0


From d874ab977914ef6ada942aa50c24f9ff21dbe925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 11/39] fix: restore the cached objects also when all
 iterations are cached

---
 tools/iterator/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index a6db2a2..260545c 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -690,6 +690,12 @@ class Iterator(Frozen):
                 raise NotImplementedError(f"cannot understand exit_code={self.exit_code}!")
 
         # --- after iteration ------------------------------------------------------------------------
+        if self._cache_objs_ is not None and keep_checking:
+            # nothing was computed in this run: the objects still have to be at the cached state.
+            self._decoding_objs_(cache_data)
+        else:
+            pass
+
         if RANK == MASTER_RANK:
             if pbar:
                 progress_bar.close()
-- 
2.43.0


From 551ccc4a64b2d6711c0a26c829ace692cce24bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 12/39] fix: take a runner row without line end for incomplete

---
 tools/legacy/serialRunners/_runner_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 5c0b6bf..ca67e4c 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -253,6 +253,7 @@ class Runner(Frozen):
                     Di = contents[i].split()
                     assert len(Di) == 1 + len(self.input_names) + len(self.output_names) + 1 + 3
                     # 1: index; +1: '|'; +3: 'ITC', 'TTC', 'ERT'
+                    assert contents[i][-1] == '\n'  # otherwise, the next row would be appended to this one.
                     self._computed_pool_ += (self.___read_to_rdf___(Di)[0],)
                     i += 1
                 except IndexError:
-- 
2.43.0


From 93cfea4318d99c07c2416c16fa8d23cccb2407e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 13/39] fix: rewrite the file of a runner in one piece

---
 tools/legacy/serialRunners/_runner_.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index ca67e4c..d6f977d 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -7,6 +7,7 @@ Created on Thu Apr 11 10:36:36 2019
 Aerodynamics, AE
 TU Delft
 """
+import os
 import pickle
 import types
 import pandas as pd
@@ -296,16 +297,19 @@ class Runner(Frozen):
         self._readwritefilename_ = writeto
         try:
             I, contents = self.___readcontents___(writeto)
-            with open(self.readwritefilename, 'w') as f: 
+            temporary = self.readwritefilename + '.tmp'
+            with open(temporary, 'w') as f: 
                 for j in range(I):
                     f.write(contents[j])
+            os.replace(temporary, self.readwritefilename)  # never leave a half-written file behind.
         except FileNotFoundError: # `writeto` is not None, and we do not find `writeto`
             # we do initializing the writing file.
             self.___initial_writing___()
             
     def ___initial_writing___(self):
         """ Initialize the writing process."""
-        with open(self.readwritefilename, 'w') as f:
+        temporary = self.readwritefilename + '.tmp'
+        with open(temporary, 'w') as f:
             # we initialize the writing field..........
             f.write('<Runner>-<{}>-<task name: {}>\n'.format(self.__class__.__name__, self.task_name))
             f.write('{}\n'.format(MyTimer.current_time()))
@@ -327,6 +331,7 @@ class Runner(Frozen):
             f.write('ERT(W)       \n')
             f.write(''+'---------------' + '-'*3*25 + '-'*25*len(self._output_names_) + 
                     '|-'+'-'*15 + '-'*15 + '-'*13 + '\n')
+        os.replace(temporary, self.readwritefilename)  # never leave a half-written file behind.
             
     def ___update_rdf___(self, index, inputs, outputs, ITC, TTC, ERT, show_progress=True):
         """ Update `self._rdf_` after each iteration."""
-- 
2.43.0


From a63e84ff773a9b5da24991fc218a834686be2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 14/39] fix: add up both contributions of an element to a
 global dof it holds twice

---
 msehtt/tools/vector/static/local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msehtt/tools/vector/static/local.py b/msehtt/tools/vector/static/local.py
index 4d9ee0e..3efb510 100644
--- a/msehtt/tools/vector/static/local.py
+++ b/msehtt/tools/vector/static/local.py
@@ -36,7 +36,9 @@ class MseHttStaticLocalVectorAssemble(Frozen):
                 gm = self._v._gm
                 v = np.zeros(gm.num_global_dofs)
                 for i in self:
-                    v[gm[i]] += self[i]  # must do this to be consistent with the matrix assembling.
+                    # an element may hold a global dof twice (one periodic element): must add up to be consistent
+                    # with the matrix assembling.
+                    np.add.at(v, gm[i], self[i])
                 RETURN = MseHttGlobalVectorDistributed(v, gm)
             else:
                 raise NotImplementedError(f"mode={mode} not implemented for {vtype} assembling")
-- 
2.43.0


From 2d52d5ca0bbb2f6427e1ba66c583c824fc52ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 15/39] fix: cleaning the newest cochain left it as the newest
 time

---
 msehtt/static/form/cochain/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..5bacf61 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -144,6 +144,7 @@ class MseHttCochain(Frozen):
 
                 if t in self._tcd:
                     del self._tcd[t]
+                    self._newest_t = max(self._tcd.keys()) if len(self._tcd) > 0 else None
                 else:
                     pass
 
-- 
2.43.0


From bb91fd4f30b530422b38f77018a109fe302d7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 16/39] fix: form.read made the numbering inside its rank by
 rank loop, ranks waited for each other

---
 msehtt/static/form/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index feb688e..deb1a34 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -420,6 +420,8 @@ class MseHttForm(Frozen):
             element = self.tpm.composition[e]
             element_signature_dict[e] = element.signature
 
+        gathering_matrix = self.cochain.gathering_matrix  # all ranks make it together, thus not in the loop below.
+
         for rank in range(SIZE):
             if RANK == rank:
                 with open(filename, 'rb') as inputs:
@@ -432,7 +434,7 @@ class MseHttForm(Frozen):
                 for t in cochain:
                     total_t_cochain = cochain[t]
                     local_t_cochain = {}
-                    for e in self.cochain.gathering_matrix:
+                    for e in gathering_matrix:
                         element_signature = element_signature_dict[e]
                         assert element_signature in Element_Signature_Dict, \
                             f"Miss cochain for element indexed {e}: {self.tpm.composition[e]}"
-- 
2.43.0


From 4cb3fe7c26d27cdd0fa0aa8cce0b3ca40499205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 17/39] fix: signatures of small elements were the same,
 form.read mixed up their cochains

---
 msehtt/static/mesh/great/elements/types/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..59542bc 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -152,20 +152,28 @@ class MseHttGreatMeshBaseElement(Frozen):
         if self.m() == self.n() == 2:  # 2d element in 2d space
             X, Y = self.ct.mapping(___xi2___, ___et2___)
             signature = list()
+            d = max(4, self.___signature_digits___(X, Y))
             for x, y in zip(X, Y):
-                signature.append("({:.4f},{:.4f})".format(round(x, 4), round(y, 4)))
+                signature.append("({:.{d}f},{:.{d}f})".format(round(x, d), round(y, d), d=d))
             signature = ''.join(signature)
         elif self.m() == self.n() == 3:  # 3d element in 3d space
             X, Y, Z = self.ct.mapping(___xi3___, ___et3___, ___sg3___)
             signature = list()
+            d = max(3, self.___signature_digits___(X, Y, Z))
             for x, y, z in zip(X, Y, Z):
-                signature.append("({:.3f},{:.3f},{:.3f})".format(round(x, 3), round(y, 3), round(z, 3)))
+                signature.append("({:.{d}f},{:.{d}f},{:.{d}f})".format(round(x, d), round(y, d), round(z, d), d=d))
             signature = ''.join(signature)
         else:
             raise NotImplementedError((self.m(), self.n()))
 
         return str(self.etype) + signature
 
+    @classmethod
+    def ___signature_digits___(cls, *coo):
+        r"""How many decimals are needed to tell a small element from its neighbors."""
+        size = min([np.max(x) - np.min(x) for x in coo])
+        return 1 - int(np.floor(np.log10(size)))
+
     @property
     def map_(self):
         r"""The numbering of the nodes of the element.
-- 
2.43.0


From 7d9596e089f05a1107d034a734f66d70f7709a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 18/39] fix: form.export.vtk imported a package that does not
 exist

---
 msehtt/static/form/export/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
-- 
2.43.0


From 749e3ca9b202efb3eccea427be77bcbd6c0fd5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 19/39] fix: grouped dds-rws files lost the names of the
 variables

---
 tools/dds/region_wise_structured_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/dds/region_wise_structured_group.py b/tools/dds/region_wise_structured_group.py
index b211f23..6860f5b 100644
--- a/tools/dds/region_wise_structured_group.py
+++ b/tools/dds/region_wise_structured_group.py
@@ -95,6 +95,7 @@ class DDS_RegionWiseStructured_Group(Frozen):
             'key': 'dds-rws-grouped',
             'coo_dict_list': self._coo_dict_list,
             'val_dict_list_group': self._val_dict_list_group,
+            'value_names': self._value_names,
         }
         with open(filename, 'wb') as output:
             pickle.dump(data_dict, output, pickle.HIGHEST_PROTOCOL)
@@ -110,6 +111,10 @@ class DDS_RegionWiseStructured_Group(Frozen):
         assert data['key'] == 'dds-rws-grouped', f'I am reading a wrong file.'
         coo_dict_list = data['coo_dict_list']
         val_dict_list_group = data['val_dict_list_group']
+        if 'value_names' in data:  # files saved by earlier versions have no names.
+            val_dict_list_group = dict(zip(data['value_names'], val_dict_list_group))
+        else:
+            pass
         return DDS_RegionWiseStructured_Group(coo_dict_list, val_dict_list_group)
 
     # -- properties --------------------------------------------------------------------------
-- 
2.43.0


From c12384c322bbd0f76d4f2435f01304cf139948a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 20/39] fix: imports of packages that only exist inside phyem

---
 msehtt/adaptive/main.py                              |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py        |  2 +-
 msehtt/tools/nonlinear_system/static/main.py         |  2 +-
 msepy/form/main.py                                   |  6 +++---
 msepy/form/numeric/main.py                           |  2 +-
 msepy/form/visualize/matplot.py                      |  2 +-
 msepy/manifold/visualize/matplot.py                  |  2 +-
 msepy/mesh/boundary_section/main.py                  |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py     |  2 +-
 msepy/mesh/visualize/matplot.py                      |  2 +-
 msepy/space/degree.py                                |  2 +-
 msepy/space/gathering_matrix/Lambda.py               |  2 +-
 msepy/space/mass_matrix/Lambda.py                    |  2 +-
 msepy/space/reconstruct/Lambda.py                    |  2 +-
 msepy/space/reduce/Lambda.py                         |  2 +-
 msepy/space/trace_matrix/Lambda.py                   |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py        |  6 +++---
 msepy/tools/linear_system/dynamic/main.py            |  2 +-
 msepy/tools/linear_system/static/local/main.py       |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py         |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py     |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py         |  2 +-
 msepy/tools/polynomials.py                           |  4 ++--
 src/algebra/array.py                                 |  2 +-
 src/algebra/linear_system.py                         | 12 ++++++------
 src/time_sequence.py                                 |  4 ++--
 src/wf/term/ap.py                                    |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py    |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py    |  8 ++++----
 .../serialRunners/INSTANCES/COMPONENTS/tir_drw.py    |  4 ++--
 .../serialRunners/INSTANCES/three_inputs_runner.py   | 10 +++++-----
 tools/miscellaneous/undirected_graph.py              |  2 +-
 32 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..a0bb713 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
index 3e7cf8e..bc78417 100644
--- a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
+++ b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
@@ -8,8 +8,8 @@ Aerodynamics, AE
 TU Delft
 """
 import inspect
-from tools.miscellaneous.timer import MyTimer
-from tools.frozen import Frozen
+from phyem.tools.miscellaneous.timer import MyTimer
+from phyem.tools.frozen import Frozen
 
 class TIR_DRW(Frozen):
     """ """
diff --git a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
index e172260..00fb6f8 100644
--- a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
+++ b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
@@ -16,11 +16,11 @@ import numpy as np
 import pandas as pd
 import matplotlib.pyplot as plt
 from time import localtime, strftime, time
-from tools.decorators.all import accepts
-from tools.legacy.serialRunners._runner_ import Runner
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
-from src.config import SIZE
+from phyem.tools.decorators.all import accepts
+from phyem.tools.legacy.serialRunners._runner_ import Runner
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
+from phyem.src.config import SIZE
 assert SIZE == 1, "Runners can only be run in single thread."
 
 class TimeIteration:
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From 94c21f1cd7bcdde91e4cf707d09640622a168647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 21/39] fix: assembling with a threshold changed the cached
 local matrices

---
 msehtt/tools/matrix/static/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index a45ca09..47c8a24 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -734,7 +734,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # `Mi` may be cached, do not change it.
 
             nums: list = list(diff(indptr))
             row = []
@@ -874,7 +874,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # `Mi` may be cached, do not change it.
 
             nums: list = list(diff(indptr))
             row = []
-- 
2.43.0


From 42a5e96ba35bf9bdb8c45f60f2d27bb04b8cbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 22/39] fix: caches keyed by representations or ids mixed up
 objects at reused addresses

---
 msehtt/static/implementation_array_parser.py |  2 +-
 tools/frozen.py                              | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..971154f 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -184,7 +184,7 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     degree0 = _str_degree_parser(str_degree0)
     degree1 = _str_degree_parser(str_degree1)
     space = _find_space_through_pure_lin_repr(space)
-    key = (id(space), str_degree0, str_degree1)
+    key = (space.__repr__(), str_degree0, str_degree1)  # an id may be reused
     if key in _setting_['_cache_M_']:
         return _setting_['_cache_M_'][key]
     else:
diff --git a/tools/frozen.py b/tools/frozen.py
index 6cc581b..5859059 100644
--- a/tools/frozen.py
+++ b/tools/frozen.py
@@ -3,6 +3,10 @@ r"""
 """
 
 from abc import ABC
+from itertools import count
+
+
+_serial_numbers_ = count(1)
 
 
 class FrozenError(Exception):
@@ -12,6 +16,22 @@ class FrozenError(Exception):
 class Frozen(ABC):
     """Enable a class to freeze self such that no more new attribute can be defined."""
 
+    def __repr__(self):
+        """Representations are used as keys of caches, which may outlive the object. An address is reused once an
+        object is gone. So we put a number no other object gets in place of the address.
+        """
+        if '___serial_number___' not in self.__dict__:
+            object.__setattr__(self, '___serial_number___', next(_serial_numbers_))
+        class_ = self.__class__
+        # noinspection PyUnresolvedReferences
+        return f"<{class_.__module__}.{class_.__qualname__} object at {hex(self.___serial_number___)}>"
+
+    def __getstate__(self):
+        """A copy, or what another process makes of a pickle, is another object."""
+        state = self.__dict__.copy()
+        state.pop('___serial_number___', None)
+        return state
+
     def __setattr__(self, key, value):
         """"""
         if self.___frozen___ and key not in dir(self):
-- 
2.43.0


From af65843beef4744c5c6f20488ab3cce7d50974f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 23/39] fix: elements of different sizes shared one metric when
 their sizes agreed in five decimals

---
 .../great/elements/types/orthogonal_hexahedron.py    | 12 ++++++------
 .../great/elements/types/orthogonal_rectangle.py     |  6 +++---
 .../mesh/great/elements/types/vtu_5_triangle.py      |  8 ++++----
 .../static/mesh/great/elements/types/vtu_9_quad.py   | 10 +++++-----
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..fcdbfa8 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,9 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = (f"OR:x%.9e" % delta_x +
+                                  "y%.9e" % delta_y +
+                                  "y%.9e" % delta_z)
         super().__init__()
         self._index = element_index
         self._parameters = parameters
@@ -356,9 +356,9 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y, ratio_z):
     """"""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    ratio_z = round(ratio_z, 8)
+    ratio_x = float('%.11e' % ratio_x)
+    ratio_y = float('%.11e' % ratio_y)
+    ratio_z = float('%.11e' % ratio_z)
     key = (ratio_x, ratio_y, ratio_z)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..9238a13 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = f"OR:x%.9e" % delta_x + "y%.9e" % delta_y
         self._polygon = None
 
         super().__init__()
@@ -325,8 +325,8 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y):
     r""""""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
+    ratio_x = float('%.11e' % ratio_x)
+    ratio_y = float('%.11e' % ratio_y)
     key = (ratio_x, ratio_y)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..f703d75 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -39,10 +39,10 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
         a, b, _ = angles_of_triangle(*parameters)
         c = angle(parameters[0], parameters[1])
         d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        self._metric_signature = (f"5:a%.8f" % round(a, 8) +
+                                  "b%.8f" % round(b, 8) +
+                                  "c%.8f" % round(c, 8) +
+                                  "d%.9e" % d)
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..b3288bc 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -70,11 +70,11 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
         d = angle(parameters[0], parameters[2])
         dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        self._metric_signature = (f"9:a%.8f" % round(a, 8) +
+                                  "b%.8f" % round(b, 8) +
+                                  "c%.8f" % round(c, 8) +
+                                  "d%.8f" % round(d, 8) +
+                                  "dis%.9e" % dist)
         self._polygon = None
 
         super().__init__()
-- 
2.43.0


From 1b77097d504400d657a770b941ffd2659f7f42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 24/39] fix: iterative solvers overwrote the given initial
 guess, so Picard iterations stopped after the first

---
 msehtt/tools/linear_system/static/global_/solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msehtt/tools/linear_system/static/global_/solve.py b/msehtt/tools/linear_system/static/global_/solve.py
index 616abdd..a748af2 100644
--- a/msehtt/tools/linear_system/static/global_/solve.py
+++ b/msehtt/tools/linear_system/static/global_/solve.py
@@ -81,7 +81,8 @@ class MseHttLinearSystemSolve(Frozen):
             pass
 
         if x0.__class__ is MseHttGlobalVectorGathered:
-            pass
+            # the iterative solvers update the initial guess in place; the given vector must not change.
+            x0 = MseHttGlobalVectorGathered(x0.V.copy(), gm=x0._gm)
 
         else:
 
-- 
2.43.0


From 99680dcd429bcedcd3e7deb1d8065e8363bf1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 25/39] fix: direct solvers took the initial guess for the flag
 to drop the system

---
 msehtt/tools/linear_system/static/global_/solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/tools/linear_system/static/global_/solve.py b/msehtt/tools/linear_system/static/global_/solve.py
index a748af2..db7ab77 100644
--- a/msehtt/tools/linear_system/static/global_/solve.py
+++ b/msehtt/tools/linear_system/static/global_/solve.py
@@ -46,7 +46,7 @@ class MseHttLinearSystemSolve(Frozen):
         _package = getattr(self, f"_package_{package_name}")
         assert hasattr(_package, scheme_name), f"package {scheme_name} has no scheme: {scheme_name}"
         scheme = getattr(_package, scheme_name)
-        if x0 is None:
+        if x0 is None or scheme_name == 'spsolve':  # direct solvers take no initial guess.
             x, message, info = scheme(self.A, self.b, **kwargs)
         else:
             x, message, info = scheme(self.A, self.b, x0, **kwargs)
-- 
2.43.0


From 0a5eb55ee5a0add80eed8893d4da208cf2ca1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 26/39] fix: numbering of split elements and the signs of their
 dofs depended on the distribution of the elements

---
 msehtt/static/mesh/great/elements/main.py |  2 +-
 msehtt/static/mesh/great/main.py          | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index 093a0ed..47c88f0 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -599,7 +599,7 @@ class MseHttGreatMeshElements(Frozen):
 
             all_element_types = MseHttGreatMeshElementDistributor.implemented_element_types()
 
-            for e in gm:
+            for e in GEM:  # not `in gm` whose sequence depends on the distribution of the elements.
                 e_class = all_element_types[GET[e]]
                 etype = e_class._etype()  # for example, pixel in fact has class etype 'orthogonal rectangle'.
                 element_face_setting = e_class.face_setting()
diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 89df1ad..59425b4 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -1353,7 +1353,12 @@ class MseHttGreatMesh(Frozen):
                             pass
             del NEW_element_map_dict
             self._element_distribution = element_distribution
-            self._global_element_type_dict = global_element_type_dict
+
+            # the sequence of the new elements follows that of the split ones such that it (thus the renumbering)
+            # does not depend on how the elements are distributed.
+            sequence = {str(e): i for i, e in enumerate(self._global_element_type_dict)}
+            new_elements = sorted(global_element_type_dict, key=lambda _: sequence[_.rsplit(':', 1)[0]])
+            self._global_element_type_dict = {e: global_element_type_dict[e] for e in new_elements}
 
         else:
             new_node_pool = {}
@@ -1372,7 +1377,9 @@ class MseHttGreatMesh(Frozen):
             _global_element_map_dict = {}
             for DICT in element_map_dict:
                 _global_element_map_dict.update(DICT)
-            self._global_element_map_dict = _global_element_map_dict
+            self._global_element_map_dict = {
+                e: _global_element_map_dict[e] for e in self._global_element_type_dict
+            }
 
         return new_element_type_dict, new_element_parameter_dict, new_element_map_dict
 
-- 
2.43.0


From 2104971d7103e1de8ac86656ce38aed8dc55e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 27/39] fix: renewing forms between adaptive meshes that are
 not split raised an assertion

---
 msehtt/adaptive/form/renew/method_3_local_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 3676bdd..3e9ea33 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -374,10 +374,13 @@ def compare_two_meshes(elements0, elements1):
 
 def ___find_base_element_index___(e):
     r""""""
-    if e[0] == '(':
+    if isinstance(e, tuple):  # a refined element which is not split (ts = 0)
+        return int(e[0])
+    elif not isinstance(e, str):  # a base element
+        return int(e)
+    elif e[0] == '(':
         s_ind = e.split(')')[0][1:].split(',')[0]
     else:
-        assert ':' in e, f"must be!"
         s_ind = e.split(':')[0]
     return int(s_ind)
 
-- 
2.43.0


From e0702273ba7154e847934be5d3c51a5c6600b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 28/39] fix: 1-form cochains carried over to a renewed mesh
 kept the dof directions of the old one

---
 .../renew/method_3_local_interpolation.py     | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 3e9ea33..11fed00 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -69,12 +69,12 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
 
         if all_same:
             for t in cochain_times_tobe_renewed:
-                fc = self._ff[t].cochain
+                fc = ___switch_reversed_dofs___(self._ff, self._ff[t].cochain)
                 tc = dict()
                 assert len(self._tf.tpm.composition) == len(fc), f"Must be!"
                 for e in self._tf.tpm.composition:
                     tc[e] = fc[e]
-                self._tf[t].cochain = tc
+                self._tf[t].cochain = ___switch_reversed_dofs___(self._tf, tc)
         else:
             self._partially_renew_(
                 cochain_times_tobe_renewed,
@@ -151,15 +151,17 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
 
         for t in cochain_times_tobe_renewed:
             new_cochain = self.___renew_a_cochain___(t, NODES, local_ff_elements, local_tf_elements)
-            old_cochain = self._ff[t].cochain._merge_to(root=MASTER_RANK)
+            old_cochain = merge_dict(___switch_reversed_dofs___(self._ff, self._ff[t].cochain))[0]
             old_cochain = COMM.bcast(old_cochain, root=MASTER_RANK)
 
-            cochain_dict = {}
+            old_cochain_dict = {}
             for e in self._tf.tpm.composition:
                 if e in new_cochain:
-                    cochain_dict[e] = new_cochain[e]
+                    pass
                 else:
-                    cochain_dict[e] = old_cochain[e]
+                    old_cochain_dict[e] = old_cochain[e]
+            cochain_dict = ___switch_reversed_dofs___(self._tf, old_cochain_dict)
+            cochain_dict.update(new_cochain)
 
             COMM.barrier()
             self._tf[t].cochain = cochain_dict
@@ -290,6 +292,29 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
         return cochain
 
 
+def ___switch_reversed_dofs___(form, cochain):
+    r"""Whether the dofs on a face of an element are reversed depends on the other elements (of the mesh) as well. So,
+    for an element that is in two meshes, the signs of its local cochain may be different in these two meshes.
+
+    This function switches between the local cochain of ``form`` and that of no dofs reversed.
+    """
+    indicator = form.space.str_indicator
+    switched_cochain = {}
+    for e in cochain:
+        element = form.tpm.composition[e]
+        local_cochain = np.array(cochain[e])
+        if indicator in element.dof_reverse_info:
+            for face_index in element.dof_reverse_info[indicator]:
+                local_dofs = element.find_local_dofs_on_face(
+                    indicator=indicator, degree=form.degree, face_index=face_index
+                )
+                local_cochain[local_dofs] = - local_cochain[local_dofs]
+        else:
+            pass
+        switched_cochain[e] = local_cochain
+    return switched_cochain
+
+
 ___compare_two_meshes_cache___ = {
     'id0': 0,
     'id1': 0,
-- 
2.43.0


From b288d2250036db7d4bbb85a6ac0a1884f0e39b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 29/39] fix: renewing forms by global interpolation raised a
 TypeError after its work was done

---
 .../adaptive/form/renew/method_1_global_interpolation.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msehtt/adaptive/form/renew/method_1_global_interpolation.py b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
index a45db51..780c2eb 100644
--- a/msehtt/adaptive/form/renew/method_1_global_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
@@ -8,7 +8,7 @@ import numpy as np
 from scipy.interpolate import NearestNDInterpolator
 # from scipy.interpolate import LinearNDInterpolator
 
-from phyem.src.config import RANK, MASTER_RANK, COMM
+from phyem.src.config import RANK, MASTER_RANK, COMM, MPI
 from phyem.tools._mpi import merge_dict
 from phyem.tools.frozen import Frozen
 
@@ -68,6 +68,11 @@ class MseHtt_FormCochainRenew_Method1_GlobalInterpolation(Frozen):
         else:
             pass
 
+        same_mesh = set(self._ff.tpm.composition) == set(self._tf.tpm.composition)
+        return {
+            'all same': int(COMM.allreduce(same_mesh, op=MPI.LAND))
+        }
+
     # noinspection PyUnboundLocalVariable
     def ___renew_a_cochain___(self, t, NODES):
         r""""""
-- 
2.43.0


From 1a387536f483376472d86fd12a90bc02d7cd576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 30/39] fix: an interpolation of a form (numeric) must not
 outlive a change of the cochain at that time

---
 msehtt/static/form/numeric/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/numeric/main.py b/msehtt/static/form/numeric/main.py
index 90c4691..3d92031 100644
--- a/msehtt/static/form/numeric/main.py
+++ b/msehtt/static/form/numeric/main.py
@@ -21,6 +21,7 @@ class MseHtt_Form_Numeric(Frozen):
         self._f = f
         self._tsp = None
         self._cache_key_ = ''
+        self._cache_cochain_ = None
         self._cache_itp_ = None
         self._export = None
         self._freeze()
@@ -144,10 +145,12 @@ class MseHtt_Form_Numeric(Frozen):
             pass
         else:
             key = f"{t}={ddf}={component_wise}"
-            if key == self._cache_key_:
+            cochain = self._f.cochain[t]._cochain  # a new object each time the cochain at `t` is set or changed.
+            if key == self._cache_key_ and cochain is self._cache_cochain_:
                 return self._cache_itp_
             else:
                 self._cache_key_ = key
+                self._cache_cochain_ = cochain
 
         n = self._f.space.n
         total_num_elements = self._f.tpm.composition.num_global_elements
-- 
2.43.0


From 0e192698b437e79569a5d482280254e227bd005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 31/39] fix: renewing a form by local interpolation could use
 what it cached for objects that are gone

The caches were keyed by id(...) of meshes, whose addresses are given to new objects once the old ones are collected.
---
 .../renew/method_3_local_interpolation.py     | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 11fed00..a1c0871 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -316,8 +316,8 @@ def ___switch_reversed_dofs___(form, cochain):
 
 
 ___compare_two_meshes_cache___ = {
-    'id0': 0,
-    'id1': 0,
+    'elements0': None,  # the objects, not their ids: an id may be reused
+    'elements1': None,
     'not_changed_elements': None,
     'changed_elements': None,
     'all_same': -1
@@ -326,14 +326,14 @@ ___compare_two_meshes_cache___ = {
 
 def compare_two_meshes(elements0, elements1):
     r""""""
-    if (id(elements0) == ___compare_two_meshes_cache___['id0'] and
-            id(elements1) == ___compare_two_meshes_cache___['id1']):
+    if (elements0 is ___compare_two_meshes_cache___['elements0'] and
+            elements1 is ___compare_two_meshes_cache___['elements1']):
         return (___compare_two_meshes_cache___['not_changed_elements'],
                 ___compare_two_meshes_cache___['changed_elements'],
                 ___compare_two_meshes_cache___['all_same'])
     else:
-        ___compare_two_meshes_cache___['id0'] = id(elements0)
-        ___compare_two_meshes_cache___['id1'] = id(elements1)
+        ___compare_two_meshes_cache___['elements0'] = elements0
+        ___compare_two_meshes_cache___['elements1'] = elements1
 
     assert isinstance(elements0, MseHttElementsPartialMesh) and isinstance(elements1, MseHttElementsPartialMesh)
 
@@ -411,15 +411,14 @@ def ___find_base_element_index___(e):
 
 
 _local_cache_1_ = {
-    'id': 0,
+    'changed_elements': None,  # the object, not its id: an id may be reused
     'indices': [],
 }
 
 
 def ___find_needed_base_element_indices___(changed_elements):
     r""""""
-    ID = id(changed_elements)
-    if ID == _local_cache_1_['id']:
+    if changed_elements is _local_cache_1_['changed_elements']:
         return _local_cache_1_['indices']
     else:
         indices = list()
@@ -427,7 +426,7 @@ def ___find_needed_base_element_indices___(changed_elements):
             base_element_index = ___find_base_element_index___(e_ind)
             indices.append(base_element_index)
 
-        _local_cache_1_['id'] = ID
+        _local_cache_1_['changed_elements'] = changed_elements
         _local_cache_1_['indices'] = indices
 
         return indices
-- 
2.43.0


From 68b3b1cd218230d57a3b8d72e912c4cc1e9bdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 32/39] fix: data cached for arrays of nodes was returned after
 the arrays were changed, and for other nodes close to them

---
 tools/miscellaneous/ndarray_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..3426293 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [array.copy() for array in arrays]  # the arrays may be changed afterwards.
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From f369e1c7ace66561a79ed5482f9de4de51497cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 33/39] fix: matrices computed from a customized local matrix
 had its customization in elements that are not customized

They share the cache key of the operand, under which a customized element must not be stored.
---
 msehtt/tools/matrix/static/local.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 47c8a24..cd0493e 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -113,6 +113,13 @@ class MseHttStaticLocalMatrix(Frozen):
         else:
             return str((self._gm_row.num_local_dofs(i), self._gm_col.num_local_dofs(i)))
 
+    def _current_cache_key(self, i):
+        r"""As `_cache_key`, but a customized element shares its data with no other element."""
+        if i in self.customize:
+            return 'unique'
+        else:
+            return self._cache_key(i)
+
     def _parse_signature(self, signature, cache_key):
         r""""""
         if signature is None:
@@ -257,7 +264,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = '-' + self._signature
 
         return self.__class__(
-            data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            data_caller, self._gm_row, self._gm_col, cache_key=self._current_cache_key,
             signature=signature
         )
 
@@ -274,7 +281,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = 'inv' + self._signature
 
         return self.__class__(
-            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._current_cache_key,
             special_indicator=f'inverse matrix of {self.__repr__()}',
             signature=signature
         )
@@ -291,7 +298,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = self._signature + '^T '
 
         return self.__class__(
-            data_caller, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            data_caller, self._gm_col, self._gm_row, cache_key=self._current_cache_key,
             signature=signature
         )
 
@@ -308,7 +315,7 @@ class MseHttStaticLocalMatrix(Frozen):
                 signature = '%.8f*' % other + self._signature
 
             return self.__class__(
-                data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+                data_caller, self._gm_row, self._gm_col, cache_key=self._current_cache_key,
                 signature=signature
             )
 
@@ -323,8 +330,8 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] + other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
-                key2 = other._cache_key(i)
+                key1 = self._current_cache_key(i)
+                key2 = other._current_cache_key(i)
                 if key1 == 'unique' or key2 == 'unique':
                     return 'unique'
                 else:
@@ -358,11 +365,11 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] @ other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
+                key1 = self._current_cache_key(i)
                 if key1 == 'unique':
                     return 'unique'
                 else:
-                    key2 = other._cache_key(i)
+                    key2 = other._current_cache_key(i)
                     if key2 == 'unique':
                         return 'unique'
                     else:
-- 
2.43.0


From 273fda4d1ea1f48349aa9c0f6292f64e1f01b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 34/39] fix: essential boundary conditions of a linear system
 changed the mass matrix of all other systems and of the session

The parser caches the static mass matrix; the system customized it. Customize copies.
---
 msehtt/static/main.py               |  2 +-
 msehtt/tools/matrix/dynamic.py      |  2 +-
 msehtt/tools/matrix/static/local.py | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/main.py b/msehtt/static/main.py
index 52c92ae..d0aef80 100644
--- a/msehtt/static/main.py
+++ b/msehtt/static/main.py
@@ -314,7 +314,7 @@ def array(indicator, *args, **kwargs):
             degree = _degree_str_maker(form.degree)
             # noinspection PyUnresolvedReferences
             M, time_caller = PARSER.Parse__M_matrix(space, degree, degree)
-            return M, time_caller
+            return M.copy(), time_caller  # the parser caches (and shares) M.
         else:
             raise NotImplementedError()
 
diff --git a/msehtt/tools/matrix/dynamic.py b/msehtt/tools/matrix/dynamic.py
index b93c35c..25afe2a 100644
--- a/msehtt/tools/matrix/dynamic.py
+++ b/msehtt/tools/matrix/dynamic.py
@@ -29,7 +29,7 @@ class MseHttDynamicLocalMatrix(Frozen):
     def __call__(self, *args, **kwargs):
         """Gives a static local matrix by evaluating the dynamic local matrix with `*args, **kwargs`."""
         if self._dtype == 'static':
-            static = self._static_data
+            static = self._static_data.copy()  # it may be customized, for example, by essential bc.
         elif self._dtype == 'list':
             # noinspection PyUnresolvedReferences
             mat = self._list_data[0](*args, **kwargs)
diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index cd0493e..d81fc7d 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -254,6 +254,16 @@ class MseHttStaticLocalMatrix(Frozen):
         for i in self._gm_row:
             yield i
 
+    def copy(self):
+        r"""A matrix of the same (not customized) data. To customize the copy does not affect me."""
+        def data_caller(e):
+            return self._get_meta_data(e)
+
+        return self.__class__(
+            data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            special_indicator=self.___special_indicator___, signature=self._signature
+        )
+
     def __neg__(self):
         r""""""
         def data_caller(e):
-- 
2.43.0


From d6fa92a3bcef486ff2c67efb202d26257bb8ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 35/39] fix: a natural boundary condition provided on several
 boundary sections was taken into account on one of them only

---
 msehtt/static/implementation_array_parser.py | 53 ++++++++++++--------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index 971154f..c7abfa0 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -297,8 +297,8 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
-        found_boundary_section_sym_repr = None
+        found_natural_bcs = list()  # the same natural bc can be provided on multiple boundary sections.
+        found_boundary_section_sym_reprs = list()
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -310,34 +310,36 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs.append(bc)
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                     else:  # provided_root_form is an abstract form
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs.append(bc)
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
-        assert found_boundary_section_sym_repr is not None, f"We must have found an abstract manifold sym repr."
+        assert len(found_natural_bcs) > 0, f"we must have found a dls natural bc!"
+        self._dls_natural_bcs = found_natural_bcs
 
-        self._dls_natural_bc = found_natural_bc
-
-        self._partial_mesh_boundary_section = None
+        self._partial_mesh_boundary_sections = list()
         partial_meshes = _base_meshes()
-        for partial_mesh_sym_repr in partial_meshes:
-            msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
-            if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
-                self._partial_mesh_boundary_section = msehtt_partial_mesh
-                break
-        assert self._partial_mesh_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+        for found_boundary_section_sym_repr in found_boundary_section_sym_reprs:
+            for partial_mesh_sym_repr in partial_meshes:
+                msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
+                if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
+                    self._partial_mesh_boundary_sections.append(msehtt_partial_mesh)
+                    break
+                else:
+                    pass
+        assert len(self._partial_mesh_boundary_sections) == len(found_natural_bcs), \
+            f"we must have found a msehtt partial boundary section for each natural bc"
 
         rf0 = None
         msehtt_forms = _base_forms()
@@ -369,6 +371,17 @@ class _TrStarRf0DualPairingTrS1(Frozen):
         """"""
         t = self._time_caller(*args, **kwargs)
 
+        full_vector = None
+        for natural_bc, boundary_section in zip(self._dls_natural_bcs, self._partial_mesh_boundary_sections):
+            vector = self._vector_of_one_section(t, natural_bc, boundary_section)
+            if full_vector is None:
+                full_vector = vector
+            else:
+                full_vector = full_vector + vector
+        return full_vector
+
+    def _vector_of_one_section(self, t, natural_bc, boundary_section):
+        """The static local vector contributed by the natural bc on one boundary section."""
         # find from all configurations the correct one for this natural BC ----------------------------------
         configurations = self._dls.config._configurations
         the_configuration = None
@@ -376,7 +389,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             _type = config['type']
             if _type == 'natural bc':
                 place = config['place']
-                if place is self._partial_mesh_boundary_section:
+                if place is boundary_section:
                     config_root_form = config['root_form']
                     if self._rf0 is config_root_form:  # note that self._rf0 must be a base-form already
                         the_configuration = config
@@ -387,7 +400,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     pass
             else:
                 pass
-        assert the_configuration is not None, f'BC: {self._dls_natural_bc} is not configured!'
+        assert the_configuration is not None, f'BC: {natural_bc} is not configured!'
 
         category = the_configuration['category']
         # ----- study the configuration to choose a correct way to use it --------------------------------------
@@ -403,7 +416,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             data = self._rf1.bi.with_vc_over_boundary_section(
                 t,
                 exact_function,    # the vc
-                self._partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
+                boundary_section  # over this msehtt partial mesh boundary section.
             )
         else:
             raise NotImplementedError(f"not implemented for natural bc of category = {category}.")
-- 
2.43.0


From f56a91797e587c4a3ed3b2a77ff8a0c8aee74a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:41 +0000
Subject: [PATCH 36/39] fix: natural boundary terms of two faces of an element
 overwrote each other at the dofs the faces share

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
-- 
2.43.0


From 62161e41d15f2ab1aa54cb9c65c51d1128dddaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 37/39] fix: outline data of curvilinear msepy elements accept
 internal_grid

---
 msehtt/static/mesh/great/elements/types/base.py             | 2 +-
 .../elements/types/unique_msepy_curvilinear_hexahedron.py   | 6 +++++-
 .../types/unique_msepy_curvilinear_quadrilateral.py         | 6 +++++-
 .../elements/types/unique_msepy_curvilinear_triangle.py     | 6 +++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 59542bc..d2ed560 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -328,7 +328,7 @@ class MseHttGreatMeshBaseElement(Frozen):
         r""""""
         return self._ct
 
-    def _generate_outline_data(self, ddf=1):
+    def _generate_outline_data(self, ddf=1, internal_grid=0):
         r""""""
         raise NotImplementedError()
 
diff --git a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_hexahedron.py b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_hexahedron.py
index 77e9e81..0129cbc 100644
--- a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_hexahedron.py
@@ -129,8 +129,12 @@ class MseHtt_GreatMesh_Unique_MsePy_Hexahedron_Element(MseHttGreatMeshBaseElemen
             self._faces = MseHtt_GreatMesh_Curvilinear_Hexahedron_Element_Faces(self)
         return self._faces
 
-    def _generate_outline_data(self, ddf=1):
+    def _generate_outline_data(self, ddf=1, internal_grid=0):
         """"""
+        if internal_grid != 0:
+            raise NotImplementedError()
+        else:
+            pass
         if ddf <= 0.1:
             ddf = 0.1
         else:
diff --git a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_quadrilateral.py b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_quadrilateral.py
index 5aee7e1..7baf2cd 100644
--- a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_quadrilateral.py
+++ b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_quadrilateral.py
@@ -84,8 +84,12 @@ class MseHttGreatMeshUniqueMsepyCurvilinearQuadrilateralElement(MseHttGreatMeshB
         """return int when it is unique."""
         return id(self)
 
-    def _generate_outline_data(self, ddf=1):
+    def _generate_outline_data(self, ddf=1, internal_grid=0):
         """"""
+        if internal_grid != 0:
+            raise NotImplementedError()
+        else:
+            pass
         if ddf <= 0.1:
             ddf = 0.1
         else:
diff --git a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_triangle.py b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_triangle.py
index 3877d30..8777f0b 100644
--- a/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/unique_msepy_curvilinear_triangle.py
@@ -105,8 +105,12 @@ class MseHtt_GreatMesh_Unique_Msepy_Curvilinear_Triangle_Element(MseHttGreatMesh
         """return int when it is unique."""
         return id(self)
 
-    def _generate_outline_data(self, ddf=1):
+    def _generate_outline_data(self, ddf=1, internal_grid=0):
         """"""
+        if internal_grid != 0:
+            raise NotImplementedError()
+        else:
+            pass
         if ddf <= 0.1:
             ddf = 0.1
         else:
-- 
2.43.0


From 293b1371f9d34d5f1d36a0dd3d79566023837c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 38/39] fix: contour does not change the data it plots

---
 tools/matplot/contour.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/matplot/contour.py b/tools/matplot/contour.py
index 6305630..6139b8a 100644
--- a/tools/matplot/contour.py
+++ b/tools/matplot/contour.py
@@ -180,6 +180,7 @@ def contour(
     x = {0: x} if not isinstance(x, dict) else x
     y = {0: y} if not isinstance(y, dict) else y
     v = {0: v} if not isinstance(v, dict) else v
+    v = {patch: np.array(v[patch]) for patch in v}  # never change the data we are given
 
     if magnitude:
         for patch in v:
-- 
2.43.0


From 623b6c0a8f37264ffc1d1abff818c6d0e10f1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:56 +0000
Subject: [PATCH 39/39] fix: clearing the pr cache removes the oldest pictures

---
 src/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.py b/src/config.py
index 82a42f5..4d1659e 100644
--- a/src/config.py
+++ b/src/config.py
@@ -238,6 +238,7 @@ def _clear_pr_cache():
         assert pr_cache_maximum > 1 and pr_cache_maximum % 1 == 0, \
             f"_setting['pr_cache_maximum'] = {pr_cache_maximum} is illegal, give me a positive integer (>1)."
         if number_pr_files >= 2 * pr_cache_maximum:
+            pr_files.sort()  # names carry the time; the oldest first
             files_2b_clean = pr_files[:pr_cache_maximum + 1]
             for file in files_2b_clean:
                 empty_dir(phcache_folder + r"/" + file)
-- 
2.43.0

