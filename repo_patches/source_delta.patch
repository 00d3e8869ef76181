From 721e0596162b04179de797d661eab723865c8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:57 +0000
Subject: [PATCH 01/66] fix: 2-opt* move returns the correct cost and demand of
 both new routes

The returned RouteData of the second route copied the cost and demand of the
first one, and neither cost matched the route, so L and C checks of subsequent
moves were made against wrong values.
---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..c95e084 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, route costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,c]+
+                                  route2_data.fwd_l[j], r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,d]+
+                                  route2_data.rwd_l[j+1], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, route costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,d]+
+                                  route2_data.rwd_l[j+1], r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,c]+
+                                  route2_data.fwd_l[j], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From 380944f3381c12d6fddd7be2a4d124d9e7f9955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 02/66] fix: MBSA stops when only one route or only worsening
 merges are left

With one route left there are no savings to unpack (ValueError), and when the
best merge worsens the solution the loop retried the same merge forever.
---
 verypy/classic_heuristics/matchingvrp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..c4e7f78 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,9 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # only one route left, nothing to merge it with
+            
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
@@ -308,8 +311,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
-                         # (even if it would mean fewer routes)
+                break # do not allow merges that would make the solution worse
+                      # (even if it would mean fewer routes)
     
             if __debug__:
                 log(DEBUG,"Best matching joins routes %s (idx:%d) and %s (idx:%d)."%(
-- 
2.43.0


From 3946be25db5fffa4c20c127690f11a6925a5f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 03/66] fix: read MIP binary decision variables with the
 integrality tolerance

Gurobi may return e.g. 1e-12 for a binary variable that is 0, and testing the
value for truthiness then assigned a customer to two routes.
---
 verypy/classic_heuristics/gapvrp.py      | 2 +-
 verypy/classic_heuristics/matchingvrp.py | 4 ++--
 verypy/classic_heuristics/petalvrp.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..849c0c3 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -76,7 +76,7 @@ def _decision_variables_to_assignments(m, Y_ik, N, K):
     for k in range(K):
         route_nodes = []
         for i in range(1, N):
-            if Y_ik_values[i,k]:
+            if Y_ik_values[i,k]>0.5: # binary up to MIP solver tolerance
                 route_nodes.append(i)
         assignments.append(route_nodes)
     return assignments
diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index c4e7f78..23f78db 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -91,10 +91,10 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     if m.Status == GRB.OPTIMAL:
         if w2_ij==None:
             max_wt, max_merge = max( (w1_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
         else:
             max_wt, _, max_merge = max( (w1_ij[k], w2_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v )
+                                      for k, v in enumerate(m.X) if v>0.5 )
             
         return max_wt, max_merge[0], max_merge[1]
     elif m.Status == GRB.TIME_LIMIT:
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..3145fac 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -364,7 +364,7 @@ def _decision_variables_to_petals(X, active_ptls, relaxed_ptls):
             # relaxed solution has additional decision variables for choosing
             #  which constraints to relax, skip them
             break
-        if v:
+        if v>0.5: # binary up to MIP solver tolerance
             if j<nactive:
                 r_w_idx = (list(active_ptls.routes[j]), j)
             else:
-- 
2.43.0


From 82c6851b41c48d656cc93a429088f8e143a60fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/66] fix: import stderr in petalvrp

Without the LKH executable importing the module (e.g. get_algorithms('all'))
raised NameError instead of falling back to the internal TSP solver.
---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 3145fac..11e5248 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -17,6 +17,7 @@ from __future__ import print_function
 from __future__ import division
 from builtins import range
 
+from sys import stderr
 from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
-- 
2.43.0


From 395ca12dea25e1c5526c4885f2421876e3004044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 05/66] fix: petal heuristic terminates and does not return
 incomplete solutions

The K constraint was loosened forever once every petal combination had been
explored, and the single iteration variant could return a solution where some
of the customers were not served.
---
 verypy/classic_heuristics/petalvrp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 11e5248..5b3cc2f 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N-1:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
@@ -1001,7 +1001,8 @@ def get_ptl_algorithm():
             return petal_init(points, D,d,C,L,
                               minimize_K=minimize_K,
                               required_iterations=1,
-                              relaxe_SCP_solutions=False)
+                              relaxe_SCP_solutions=False,
+                              allow_infeasible=False)
             
         else:
             return petal_init(points, D,d,C,L,
-- 
2.43.0


From 0cb92b02be2e5c292aef04f3987ae9630c2b4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 06/66] fix: suppression savings solves also problems with only
 one customer

---
 verypy/classic_heuristics/suppression_savings.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..f09d38d 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -67,7 +67,8 @@ def supression_savings_function(D, suppressed, savings_cache=None):
         modified_savings = False
         si = 0
         # remove all suppressed from the cache
-        while (savings_cache[si][2], savings_cache[si][3]) in suppressed:
+        while si<len(savings_cache) and\
+              (savings_cache[si][2], savings_cache[si][3]) in suppressed:
             # replace the savings record with one with suppressed value (0)
             savings_cache[si] = (0, savings_cache[si][1],
                          savings_cache[si][2], savings_cache[si][3],)
@@ -77,6 +78,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
+    if not savings_cache:
+        return savings_cache # only one customer, nothing to merge or suppress
+    
     first_savings = savings_cache[0]
     suppress = (first_savings[2], first_savings[3])
     if __debug__:
@@ -112,7 +116,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # there is always at least the solution without suppressed merges
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From 134b14b159c38dcf0665c5d75912c7b70a39f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 07/66] fix: Wren & Holliday sweep stops when PAIR and DELETE
 start to cycle

The improvement phase never terminated if the solution alternated between
states of different cost.
---
 verypy/classic_heuristics/wren_holliday_sweep.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..0ffb107 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        seen_states = set()
         changed = False
         
         try:
@@ -728,6 +729,13 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                     ## STOP ##
                     break
                 
+                # PAIR and DELETE can undo the changes of each other. Returning
+                #  to a state that was seen before means we would go on forever.
+                state = (deleted, tuple(tuple(rd.route) for rd in routes))
+                if converging and state in seen_states:
+                    break
+                seen_states.add(state)
+                
         except KeyboardInterrupt:
             interrupted = True
             
-- 
2.43.0


From 51b18d780fcae8e5bbc70924cc7be09657d8821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/66] fix: D2D_c does not truncate odd or fractional service
 times

Half of an odd service time was rounded down (and an int distance matrix
truncated a fractional service time) so the route costs were too small.
---
 verypy/cvrp_ops.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..cf2fd18 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -236,13 +236,16 @@ def D2D_c(D, st):
     if not st:
         raise ValueError("Service time not set")
     
-    tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    tst = st
+    halftst = st/2.0
+    if float(D.dtype.type(tst))!=float(tst) or\
+       float(D.dtype.type(halftst))!=float(halftst):
+        # the service time cannot be represented with the data type of D
         D_c = D.astype('d')
-        halftst = tst/2.0
     else:
-        D_c = np.copy(D)    
-        halftst = int(tst/2)
+        D_c = np.copy(D)
+        tst = D.dtype.type(tst)
+        halftst = D.dtype.type(halftst)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From afb30f60172bc056ff95b0c2197b67711d72769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/66] fix: reorder also the last node when the depot is not
 the first node

The last row and column of the distance matrix were left unpermuted when the
DEPOT_SECTION of a TSPLIB file named any other than the first node.
---
 verypy/cvrp_io.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..a13e911 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,10 +385,7 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
-            D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
-            D[i,:] = D[i,row_col_permutation]
+        D = D[row_col_permutation,:][:,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
         if points is not None and len(points)>0:
-- 
2.43.0


From 207cd66837df9c18bd1bd97dfddcd3c952438ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 10/66] fix: OPT solution reader counts the routes and reads
 the costs we write

The number of routes was always 0 unless it was a part of the file name, and
the 'Cost : x' line written by as_OPT_solution could not be parsed.
---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index a13e911..8487a8d 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -132,7 +131,8 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    # both "Cost 521" and "Cost : 521" are used
+                    coststring = l.replace(":"," ").split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
@@ -145,7 +145,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From 0e17bae472a86580ddb5ed47867d22191ff6f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 11/66] fix: read the SVC_TIME_SECTION with a depot entry and
 following sections

The service time 0 of the depot was not skipped, and the lines after the
section could not be unpacked.
---
 verypy/cvrp_io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 8487a8d..67f30b8 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -416,14 +416,17 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
             if reading_service_time_section:
-                nid, nst = l.split()
-                if "." in nst:
-                    nst = float(nst)
-                else:
-                    nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
+                fields = l.split()
+                if len(fields)!=2 or not fields[0].isdigit():
+                    reading_service_time_section = False
+                elif int(fields[0])!=1: # the depot is not serviced
+                    nst = fields[1]
+                    if "." in nst:
+                        nst = float(nst)
+                    else:
+                        nst = int(nst)
+                    if ST is not None and nst!=ST:
+                        raise IOError("Only single (same) service time for all customers is supported")
                     ST = nst
             if "DISTANCE" in l:
                 if "." in l:
-- 
2.43.0


From 236604c24a1414cb59e78e39a458f05ed981326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 12/66] fix: write the demands of the selected nodes only

With selected_idxs the DEMAND_SECTION of the written CVRP had too many entries
and the demands did not match the distances.
---
 verypy/cvrp_io.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 67f30b8..e9f03d0 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -548,12 +548,8 @@ def write_TSPLIB_file(tsplib_file_path, D,
                 problem_file.write("\n")
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
-            if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
-            else:
-                for i in range(2,len(D)+1):
-                    problem_file.write("%d 1\n"%i)
+            for ii, i in enumerate(selected_idxs[1:]):
+                problem_file.write("%d %d\n"%(ii+2, int(d[i]) if d else 1))
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
             problem_file.write("-1\n")
-- 
2.43.0


From 0ae6da1e75b72d2b13dd32da14079c0e3f4dba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 13/66] fix: -D ROUND rounds the distance matrix (np.int is not
 a function)

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..cfe90bc 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.round(D)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From fa9be10e29d36e589f2ce4ef921f5b7a4d072222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 14/66] fix: command line can report problems without a
 capacity constraint

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index cfe90bc..549a93f 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,7 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    instance_data[bn] = (N,sol_K,C,"-" if tightness is None else "%.3f"%tightness,L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From 9e235cfc2d8bcf0307b97269f165f053ca8ffccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 15/66] fix: command line can collect results of unsolved
 problems

---
 verypy/VeRyPy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 549a93f..7e5ed75 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -298,7 +298,9 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
+                # the instance data is missing if the problem was not solved
+                problem_data = instance_data.get(problem, ("-",)*6)
+                print("\t".join( str(e) for e in problem_data ),end="")
             for _, result in sorted(algo_results.items()):
                 print("\t", result,end="")
             print()
-- 
2.43.0


From 768203d7924501dd96b9b37cdf52de43a5495391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 16/66] fix: an unknown or differently cased --forbid does not
 crash the command line

---
 verypy/VeRyPy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 7e5ed75..37191f7 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -105,9 +105,9 @@ def main(overridden_args=None):
     # get algorithms
     algos = get_algorithms(app_args.active_algorithms)
     if app_args.forbid_algorithms:
-        forbidden_algos = [algo_name_aliases[algo_name]
+        forbidden_algos = [algo_name_aliases[algo_name.lower()]
                            for algo_name in app_args.forbid_algorithms
-                           if (algo_name in app_args.forbid_algorithms)]
+                           if (algo_name.lower() in algo_name_aliases)]
         algos = [a for a in algos if (a[0] not in forbidden_algos)]
 
     # get primary objective
-- 
2.43.0


From 65f6c2bde529886f79daf11c6d9bcf2f3a005de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 17/66] fix: recursive problem search lists every problem file
 only once

---
 verypy/shared_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..ce6665e 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,9 +157,11 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
+        subfolder_paths = []
         for problem_path in problem_paths:
             for root, dirs, _ in walk(problem_path):
-                problem_paths += [path.join(root,d) for d in dirs]
+                subfolder_paths += [path.join(root,d) for d in dirs]
+        problem_paths = list(problem_paths)+subfolder_paths
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-- 
2.43.0


From 9d68913bfe66158fbc9da78dd80b2c4c64226ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 18/66] fix: redistribute does not insert a rejected customer
 on two routes

---
 verypy/local_search/inter_route_operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index c95e084..2669a68 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -567,9 +567,9 @@ def do_redistribute_move(redisributed_route_data,
                 total_delta+=delta
                 if total_delta+S_EPS<best_delta:
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                # when rejecting, the customer already is on the ansatz route,
+                #  hence, do not try to insert it to the other routes as well.
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From df8b43a2f56f3afe38f8e3d2cef5f5076502db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 19/66] fix: one point and chain moves keep also the shortened
 route L feasible

---
 verypy/local_search/inter_route_operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 2669a68..b76d8ae 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -257,6 +257,10 @@ def do_1point_move(route1_data, route2_data, D, d=None,
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
+        
+        # if D does not satisfy triangle inequality, a removal may be infeasible
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
 
         for j in range(1,len(route2)):
             insert_after = route2[j-1]
@@ -624,6 +628,10 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
         
+        # if D does not satisfy triangle inequality, a removal may be infeasible
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         for j in range(1,len(route2)-1):
             
             replace_after = route2[j-1]
-- 
2.43.0


From 3aec76b775be687f58f8a70f77fb211eea0ec1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 20/66] fix: util.first_valid and util.sol2edgeset do what they
 document

---
 verypy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..15c29a5 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -62,7 +62,7 @@ def totald(sol, d):
 def first_valid(l):
     """Returns the first non-None or otherwise valid (evals to true) item from
     the list, or None if no such item exists."""
-    return next((item for item in l if item), default=None)
+    return next((item for item in l if item), None)
     
 def is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
     """Compares a solution against the current best and returns True if the
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if not symmetric or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From 05cd51747de41f43b8f6f71278b00c9cf10a87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 21/66] fix: reading and solving a problem does not crash if no
 solution is found

---
 verypy/shared_cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index ce6665e..4162f16 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -138,7 +138,7 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
                 best_K = sol_K
             if best_of_n>1 and verbosity>=1:
                 print("SOLUTION QUALITY %d of %d: %.2f"%
-                      (repeat_n+1,best_of_n, objf(best_sol, D_c)))
+                      (repeat_n+1,best_of_n, best_f))
             if print_measured_time or verbosity>=1:
                 print("SOLVED IN: %.2f s"%elapsed)
                 
@@ -152,6 +152,10 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     if interrupted:
         raise KeyboardInterrupt()
     
+    if best_sol is None:
+        # the algorithm was not able to find any solution
+        return None, float('inf'), float('inf'), elapsed
+    
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
-- 
2.43.0


From 8479b8e5f9a10cf47ae75371b60021452dff52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 22/66] fix: naive 2-opt* calls the existing constraint check

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 6bcad14..c3ca13d 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -225,7 +225,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
 
          
                 if delta+S_EPS<best_delta:
-                    if fast_constraint_check(ansatz_sol,D,demands,C,L):
+                    if _naive_constraint_check(ansatz_sol,D,demands,C,L):
                         best_delta = delta
                         best_sol = ansatz_sol
                         
-- 
2.43.0


From 1becdf0080ddc5ec5346f225b51455c7253dd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 23/66] fix: gap heuristic supports fractional service times
 with rounded distances

---
 verypy/classic_heuristics/gapvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 849c0c3..7f048d3 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -773,6 +773,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                     #  distances (the other half is already added to the D
                     #  prior to gapvrp_init)
                     halftst = int(st/2) if int_dists else st/2.0
+                    S = S.astype(D.dtype)
                     S[:,1:] += halftst
                 D_s = np.vstack( (D_0, S) )
         
-- 
2.43.0


From 8480e9b6b203eab1b36710bc3df3a1a73e270609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 24/66] fix: nearest neighbor lists do not lose customers at
 zero distance

---
 verypy/classic_heuristics/nearest_neighbor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..21f77b1 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -164,9 +164,11 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # leave out the reference to self (it is not necessarily the first, if
+        #  there are other nodes at zero distance)
+        node_nearest_neighbors[i] = _PeekQueue(
+            sorted(((j,D_ij) for j,D_ij in enumerate(D[i][:]) if j!=i),
+                   key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
-- 
2.43.0


From b7901dbd700f228d2d615184cb64e23c4cd211ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 25/66] fix: insertion heuristics resolve ties
 deterministically

---
 verypy/classic_heuristics/cheapest_insertion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..93045da 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -50,6 +50,8 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        # a running number for the insertions, used to break ties
+        self.insertion_count = 0
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +125,11 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        # ties are resolved in the order of generation (and not according to,
+        #  e.g., the memory address, which varies from one run to the next)
+        rd.insertion_count += 1
+        heappush( rd.potential_insertions,
+                  (sorting_key, rd.insertion_count, insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From fccac83481aeed074c17f146d85715fd1132300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 26/66] fix: parallel savings skips only the merges that
 increase the cost

---
 verypy/classic_heuristics/parallel_savings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index 6b14a5f..df4d056 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -112,7 +112,9 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
             if ignore_negative_savings:
                 cw_saving = D[i,0]+D[0,j]-D[i,j]
                 if cw_saving<0.0:
-                    break
+                    # only this merge is ignored, because the list may be
+                    #  sorted according to some other savings criterion
+                    continue
                 
             left_route = endnode_to_route[i]
             right_route = endnode_to_route[j]
-- 
2.43.0


From faf47af6971da37e7d64739acc56d1007a27b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 27/66] fix: route first cluster second finds the least cost
 partition of the giant tour

---
 verypy/classic_heuristics/rfcs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..43f3efb 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -98,12 +98,14 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 sequence_D[u_idx,v_idx] = route_cost+route_cost_constant
                 next_split[u_idx,v_idx] = v_idx
                 
+                # all of the customers are on the same route
+                if v_idx==u_idx:
+                    break
+
                 # leave out the last node of the giant tour (same as the first)
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
@@ -116,9 +118,13 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
     #  this initializes the i==i to 0, which is exactly the distance we are 
     #  interested in!
-    for i in range(N):
-        for j in range(N):
-            for k in range(N):
+    # Go around the giant tour at most once, that is, the split k is between
+    #  i and j when moving along the tour.
+    for k in range(gtl):
+        for i in range(gtl):
+            for j in range(gtl):
+                if (k-i-1)%gtl >= (j-i-1)%gtl:
+                    continue
                 if sequence_D[i,j] > sequence_D[i,k]+sequence_D[k,j]:
                     sequence_D[i,j] = sequence_D[i,k]+sequence_D[k,j]
                     next_split[i,j] = next_split[i,k]
-- 
2.43.0


From b045cc72f5ffb8414bf63ab28ddace19bfcfa071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 28/66] fix: gap heuristic does not crash when the demands or
 the distances are all zero

---
 verypy/classic_heuristics/gapvrp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 7f048d3..f18cbdc 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -275,7 +275,9 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                         cone_fraction = min(1.0, (group_target-group_cum)/d[prev_node_i])
                     cone_wt = cone_fraction*d[prev_node_i]
                 else:
-                    cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
+                    cone_fraction = 1.0
+                    if D[prev_node_i,i]!=0:
+                        cone_fraction = min(1.0, (group_target-group_cum)/(D[prev_node_i,i]))
                     cone_wt = cone_fraction*D[prev_node_i,i]
                 
                 group_cum+=cone_wt
@@ -291,10 +293,10 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
                         log(DEBUG-3,"Node %d, added %.2f %% of cost (%.2f)" %\
                             (prev_node_i, cone_fraction*100, 0.5*D[prev_node_i,i]))
                     log(DEBUG-2,"Group %.2f %% full"%\
-                        (group_cum/group_target*100.0))
+                        (group_cum/group_target*100.0 if group_target else 100.0))
                     # pylint: enable=bad-string-format-type
                                     
-                if (group_target-group_cum)<EPS:  
+                if (group_target-group_cum)<EPS and len(grouped_cones)<K:
                     group_end_ray = bisect_angle(prev_ray, ray, cone_fraction)  
                     # group is full, store it
                     grouped_cones.append( _Cone(group_start_ray,group_end_ray,
@@ -717,14 +719,14 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     else:
         # start from the smallest K possible
         if C:
-            startK = int(ceil(sum(d)/C))
+            startK = max(1, int(ceil(sum(d)/C)))
         elif L:
             # find a lower bound by checking how many visits from the TSP
             #  tour need to add to have any chance of making this L feasible.
             _,tsp_f = solve_tsp(D, list(range(1,N)))
             shortest_depot_edges = list(D[0,1:])
             shortest_depot_edges.sort()
-            startK = int(ceil(tsp_f/L))
+            startK = max(1, int(ceil(tsp_f/L)))
             while True:
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
-- 
2.43.0


From 11821e3ed1714746ade710cec598945b53e1f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 29/66] fix: LR3OPT does not cycle on rounding errors magnified
 by the penalties

---
 verypy/classic_heuristics/lr3opt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 597eb2c..bee5d92 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -61,6 +61,9 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
     i,j,k are changed but that would mean duplication of the do_3optstar_move
     code, which was not preferable."""
     
+    # The penalty multipliers magnify also the rounding errors.
+    eps = S_EPS*max([1.0]+[lm for lm in lambdas if lm is not None])
+    
     ## Calculate the penalties that are lifted
     removed_penalties = 0
     if C:
@@ -105,7 +108,7 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
     
     ## Calculate the move induced Lagrangian relaxation penalties
     # Note that the move has to have some potential to be an improvement.
-    if (delta+S_EPS<best_delta):
+    if (delta+eps<best_delta):
         
         prev_edge = [None,None]
         route_d = 0
@@ -135,7 +138,7 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
                     route_l = cum_l[curr_edge[0]]
                 
                 # abort poor moves early
-                if (delta+S_EPS>=best_delta):
+                if (delta+eps>=best_delta):
                     return None
             if C:
                 route_d += cum_d[curr_edge[1]]
@@ -150,7 +153,7 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
             delta += (route_d-C)*lambdas[0]
         if L and route_l-S_EPS>L:
             delta += (route_l-L)*lambdas[1]
-        if (delta+S_EPS<best_delta):
+        if (delta+eps<best_delta):
             return delta
         
     # was not an improving move
-- 
2.43.0


From ec0821f78ba9b7682e69b4e9ff61cc4e0082155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:00 +0000
Subject: [PATCH 30/66] fix: naive local search went on after max_iterations

---
 verypy/local_search/naive_implementations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index c3ca13d..198534f 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -484,8 +484,8 @@ def do_naive_local_search(ls_ops, sol, D, d, C, L = None,
             
             sol = new_sol            
             iteration += 1
-            if max_iterations and iteration==max_iterations:
-                break
+            if max_iterations and iteration>=max_iterations:
+                return sol
     return sol
 
         
-- 
2.43.0


From 5374955cf8ee6d11d03cbc6bfb4f310343de84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 31/66] fix: adding to an ordered set left its index access out
 of date

---
 verypy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/util.py b/verypy/util.py
index 15c29a5..aaa9a3c 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,9 +166,9 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
-        self.ods[element] = None
-        if self.keylist:
+        if self.keylist is not None and element not in self.ods:
             self.keylist.append(element) # avoid full update
+        self.ods[element] = None
     def difference_update(self, collection):
         for element in collection:
             self.ods.pop(element, None)
-- 
2.43.0


From f2b409be43a9e28df76688ca9c4f4276c9cb401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 32/66] fix: shuffling a closed tour moved its end into the
 middle

---
 verypy/tsp_solvers/tsp_solver_ropt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/tsp_solvers/tsp_solver_ropt.py b/verypy/tsp_solvers/tsp_solver_ropt.py
index 7fce828..ed79cfd 100644
--- a/verypy/tsp_solvers/tsp_solver_ropt.py
+++ b/verypy/tsp_solvers/tsp_solver_ropt.py
@@ -25,6 +25,8 @@ def solve_tsp_ropt(D, selected_idxs,
     
     if do_shuffle:
         shuffled_idxs = list(selected_idxs[1:])
+        if shuffled_idxs and shuffled_idxs[-1]==endp:
+            shuffled_idxs.pop()
         shuffle(shuffled_idxs)
         new_route = [endp]+shuffled_idxs+[endp]
     elif selected_idxs[-1]!=endp:
-- 
2.43.0


From 1034cfb85dfe6044bf456cf07b364d11bcaf0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 33/66] fix: normalizing a list of routes with an empty one
 crashed

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index cf2fd18..b8558d2 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route]
     else:
         #print(sol
         routes = _list_split(sol, 0)
-- 
2.43.0


From 34a33c90601fd4807468fe8553e773e20ccddc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 34/66] fix: LKH wrapper truncated the cost of tiny tours to
 integers

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..a54b829 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -45,7 +45,7 @@ def solve_tsp_lkh(D, selected_idxs,
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
-- 
2.43.0


From 9d5672c0991978e564a9da7c61ed028185a1e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 35/66] fix: ACOTSP wrapper crashed with current numpy versions
 and with ants

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..a4e1a3b 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -69,7 +69,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = issubclass(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
@@ -79,12 +79,12 @@ def solve_tsp_acotsp(D, selected_idxs,
                       float_to_int_precision=float_accuracy)
     
     # 2. Call acotsp
+    nul_f = open(os.devnull, 'w')
     if use_ants:
         # with defaults
         command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
     else:
         # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
         command = [ACOTSP_EXE_PATH,
                    "-r", "1", # one try is enough without ants (determnistic)
                    "-m", "1", # one (deteministic) ant is still needed 
-- 
2.43.0


From 8f9ea30160c11c6336df6f526b726a29e6ca905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 36/66] fix: pseudo-Euclidean (ATT) distances divided the root,
 not its argument

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index e9f03d0..6f29301 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From fe072b66977aa4c2272d808e12446dae11de15ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:37 +0000
Subject: [PATCH 37/66] fix: constraint fields without a space after the colon
 crashed the reader

---
 verypy/cvrp_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 6f29301..d7e7823 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -430,16 +430,16 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                     ST = nst
             if "DISTANCE" in l:
                 if "." in l:
-                    L = float( l.split()[-1] )
+                    L = float( l.replace(":"," ").split()[-1] )
                 else:
-                    L = int( l.split()[-1] )
+                    L = int( l.replace(":"," ").split()[-1] )
             if "SERVICE_TIME" in l:
                 if "." in l:
-                    ST = float( l.split()[-1] )
+                    ST = float( l.replace(":"," ").split()[-1] )
                 else:
-                    ST = int( l.split()[-1] )
+                    ST = int( l.replace(":"," ").split()[-1] )
             if "VEHICLES" in l:
-                K = int( l.split()[-1] )
+                K = int( l.replace(":"," ").split()[-1] )
             if "SVC_TIME_SECTION" in l:
                 reading_service_time_section = True
                     
-- 
2.43.0


From b1eff4b9995b5144f6d5e56390d5fb7dd0614150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:31 +0000
Subject: [PATCH 38/66] fix: incomplete demand and coordinate sections were
 read with missing values

---
 verypy/cvrp_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index d7e7823..695168c 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -371,6 +371,11 @@ def read_TSPLIB_CVRP(file_name):
             #print edge_weight_format, ij_section_pos 
             raise IOError("Explicit distance matrix did not have enough values")
     
+    if demands is not None and None in demands:
+        raise IOError("The demand section did not have enough values")
+    if any(nodes is not None and [None, None] in nodes for nodes in (points, dd_points)):
+        raise IOError("The coordinate section did not have enough values")
+    
     if D_needs_update:
         D = calculate_D(points, None, edge_weight_type )
     
-- 
2.43.0


From 0de9caa5cd69dc2ee0a851647238b67be0baed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 39/66] fix: problem files in folders with brackets in the name
 were not found

---
 verypy/shared_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 4162f16..508783b 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -9,6 +9,7 @@ fuctionality for the classical heuristics."""
 from __future__ import print_function
 from __future__ import division
 
+import re
 import sys
 from time import time
 from os import path, walk
@@ -169,6 +170,8 @@ def get_a_problem_file_list(problem_paths, recursive=False):
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
+            # the folder name can have characters that are special to glob
+            problem_path = re.sub(r"([*?[])", r"[\1]", problem_path)
             for in_fn in natural_sort(glob(path.join(problem_path, "*.vrp"))):
                 files_to_solve.append( in_fn )
             for in_fn in natural_sort(glob(path.join(problem_path, "*.tsp"))):
-- 
2.43.0


From 88e2ef29a6dd0a81b6f478af73ad8f7cb676461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 40/66] fix: interruptions without a partial solution were
 ignored by parameter sweeps

---
 verypy/classic_heuristics/gaskell_savings.py        | 2 +-
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 verypy/classic_heuristics/paessens_savings.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..e7e35e1 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -99,7 +99,7 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             # lambda or pi was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..814c083 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -270,7 +270,7 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             # some of the strain function insertion runs was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..b26aa0d 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -117,7 +117,7 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             # some parameter combination was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From ad4885af5c997befa31b67d98a09bb6067851b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 41/66] fix: interrupted insertion heuristics served customers
 twice or not at all

---
 verypy/classic_heuristics/cheapest_insertion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 93045da..fd41d42 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -408,10 +408,13 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
+        # the last completed route can still be among the emerging ones
+        complete_routes = [rd for rd in complete_routes if rd not in route_datas]
         interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
                           +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
-                                           if n not in interrupted_sol)[1:] )
+        # customers that were about to be added are neither unrouted nor routed
+        for n in set(range(1,len(D))).difference(interrupted_sol):
+            interrupted_sol.extend( [n, 0] )
         raise KeyboardInterrupt(interrupted_sol)
                               
     return [0]+_EmergingRouteData.export_solution(route_datas)\
-- 
2.43.0


From 72c6d5e2a94ec544c123ae5a86b28dd3ad16e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 42/66] fix: interrupting the nearest neighbor heuristics with
 all customers routed crashed

---
 verypy/classic_heuristics/nearest_neighbor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 21f77b1..2a8961b 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -319,7 +319,9 @@ def nearest_neighbor_init(D, d, C, L=None,
             if sol:
                 unroutedr = [[n] for n in range(N)
                              if (n not in sol)]
-                if sol and len(sol)>1:
+                if not unroutedr:
+                    interrupted_sol = sol
+                elif sol and len(sol)>1:
                     interrupted_sol = sol[:-1]+routes2sol( unroutedr )
                 else:
                     interrupted_sol = routes2sol( unroutedr )
-- 
2.43.0


From 60d8ed67a050778b788c76c344442dee9a2c85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 43/66] fix: interruptions without a partial solution were
 ignored by merge suppression

---
 verypy/classic_heuristics/suppression_savings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f09d38d..4e817e6 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -142,7 +142,7 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         except KeyboardInterrupt as e: # or SIGINT
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From eb0b148b82374e7f8f6bb6473174b0752c3c5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 44/66] fix: interrupted route first cluster second crashed or
 returned infeasible solutions

---
 verypy/classic_heuristics/rfcs.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 43f3efb..0e223d8 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -132,6 +132,9 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     # build a solution based on the Floyd's algorithm *next* matrix for the 
     #  least cost tour, 
     best_start_idx = np.argmin(sequence_D.diagonal())
+    if interrupted and np.isinf(sequence_D[best_start_idx, best_start_idx]):
+        # there are no feasible routes to all customers yet
+        raise KeyboardInterrupt()
     sol = [0]
     sol_K = 0
     sol_f = 0.0
@@ -151,14 +154,10 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            route, _ = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
-        if not interrupted:
-            route, route_cost = route_tsp_opt_algo(D, route )
+        route, route_cost = route_tsp_opt_algo(D, route )
         
         # record the route
         sol.extend(route[1:])
-- 
2.43.0


From 378a8db849811e815bee24f98228b93e662d3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 45/66] fix: interrupted two phase heuristic crashed or left
 customers unserved

---
 verypy/classic_heuristics/cmt_2phase.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..d9a189c 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -179,7 +179,10 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
+        # the route that is being built is given up
+        interrupted_sol = sol+[0]
+        for n in set(customer_nodes).difference(sol):
+            interrupted_sol.extend( [n, 0] )
         raise KeyboardInterrupt(interrupted_sol)
         
     sol+=[0]
@@ -397,8 +400,9 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
         rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
-                                                if n not in rs_sol)
+        interrupted_sol = rs_sol
+        for n in set(customer_nodes).difference(rs_sol):
+            interrupted_sol.extend( [n, 0] )
         raise KeyboardInterrupt(interrupted_sol)
     
     ## Step 4: Redo step 1 or construct the solution and exit 
-- 
2.43.0


From 19a44b7ed87ca80e5a4d35ced3d2cb14c12321ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 46/66] fix: interrupting the matching based heuristic crashed

---
 verypy/classic_heuristics/matchingvrp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 23f78db..b7b6861 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -154,6 +154,12 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     """
     savings.sort(reverse=True)
     
+    # the single customer routes may not be in the cache yet
+    for nodes in route_sets:
+        if nodes not in tsp_cache:
+            route = [0]+[n for n in nodes if n!=0]+[0]
+            tsp_cache[nodes] = (route, objf(route, D))
+    
     try:    
         
         # Do a first pass where the routes in the tsp_cache are used
@@ -200,10 +206,10 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_j = route_sets[route_j]
             chain_i = tsp_cache[nodes_i][0][1:-1]
             l_i = tsp_cache[nodes_i][1]
-            d_i = _get_demand(nodes_i, demand_cache, d)        
+            d_i = _get_demand(nodes_i, demand_cache, d) if C else 0
             chain_j = tsp_cache[nodes_j][0][1:-1]
             l_j = tsp_cache[nodes_j][1]
-            d_j = _get_demand(nodes_j, demand_cache, d)
+            d_j = _get_demand(nodes_j, demand_cache, d) if C else 0
             
             # check constraints
             if C and d_i+d_j-C_EPS>C: continue
-- 
2.43.0


From 2758e39cf2cbaacc4398dbd06cc3e5c953fb1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 47/66] fix: petal heuristic ignored interruptions or passed on
 infeasible solutions

---
 verypy/classic_heuristics/petalvrp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 5b3cc2f..7b13512 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -871,7 +871,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-                    return best_sol
+                    break # main iteration loop
                 continue
             
             petal_sol = routes2sol(chosen_ptl_routes)
@@ -987,7 +987,8 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
-        raise KeyboardInterrupt(best_sol)
+        # do not pass on solutions that do not serve all customers
+        raise KeyboardInterrupt(best_sol if best_sol_feasible else None)
         
     return best_sol 
         
-- 
2.43.0


From 8c1c8e9994a620c12736cc4e32d3d3930d0db767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:50 +0000
Subject: [PATCH 48/66] fix: interrupted Mole & Jameson insertion gave routes
 over the maximum cost

---
 .../mole_jameson_insertion.py                 | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index 814c083..aaba9ab 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -63,15 +63,20 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
     route_2opt_improved = list(rd.route)
     total_delta = insertion.cost_delta
     applied_2opt_moves = False
-    while True:
-        updated_route, delta = do_2opt_move(route_2opt_improved, D,
-                                            strategy=LSOPT.BEST_ACCEPT)
-        if delta is not None:
-            applied_2opt_moves = True
-            total_delta+=delta
-            route_2opt_improved = updated_route
-        else:
-            break
+    try:
+        while True:
+            updated_route, delta = do_2opt_move(route_2opt_improved, D,
+                                                strategy=LSOPT.BEST_ACCEPT)
+            if delta is not None:
+                applied_2opt_moves = True
+                total_delta+=delta
+                route_2opt_improved = updated_route
+            else:
+                break
+    except KeyboardInterrupt: # or SIGINT
+        # it is not known if the route is valid with the insertion
+        rd.route.remove(inserted) # reverse the change
+        raise
     
     # do not accept insertions/moves that make the solution worse!
     if not minimize_K:
-- 
2.43.0


From 7ea83f0535c34e94a714b5b828935b85e7d3d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 49/66] fix: nearest neighbor with 'nearest' initialization
 crashed if nodes ran out

---
 verypy/classic_heuristics/nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 2a8961b..b578359 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -108,6 +108,8 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                 if D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError("all nodes are served")
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From 516e453c8ac07289d88a30d10aa7b00acc482b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 50/66] fix: sequential savings with 'savings' initialization
 crashed with one customer

---
 verypy/classic_heuristics/sequential_savings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 85fb182..f25b2b2 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -98,8 +98,8 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
         seed_customers = sum(
             (clarke_wright_savings(unrouted, i, D) for i in range(1,N)), [])
         seed_customers.sort()
-        _,_,_,seed_customers = zip(*seed_customers)
-        seed_customers = list(seed_customers)
+        # there are no savings if there is only one customer
+        seed_customers = [j for _,_,_,j in seed_customers] or list(unrouted)
     elif callable(initialize_routes_with):
         seed_customers = initialize_routes_with(D)
     else:
-- 
2.43.0


From b46c082b4d85e79884ad87aff245ceaf3de40a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 51/66] fix: assignment heuristic without adaptive weights
 crashed when infeasible

---
 verypy/classic_heuristics/gapvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index f18cbdc..ce24aa9 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -903,6 +903,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                             if __debug__: corrective_action = "temporarely increase K by %d"%incK
                         else:
                             take_next_seed = True
+                            if __debug__: corrective_action = "try with another seed = %d"%seed_trial
 
 
                 # Store the best so far
-- 
2.43.0


From ef5e9027500e88787fcb6b46a395b5b52613774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 52/66] fix: assignment heuristic with seeds of large demands
 crashed on the second trial

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index ce24aa9..5848ed8 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -529,7 +529,7 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
         not_over_half_idxs = np.where( ~candidate_d_mask )[0].tolist()
         sorted_d = [(d[i], i) for i in not_over_half_idxs]
         sorted_d.sort(reverse=True)
-        sorted_d_idxs = list(zip(*sorted_d))[1]
+        sorted_d_idxs = [i for _, i in sorted_d]
         additional_large_d_idxs = sorted_d_idxs[max(0, trial-N):min(N,trial)]
         candidate_d_idxs+=additional_large_d_idxs
         candidate_d_mask[additional_large_d_idxs] = True
-- 
2.43.0


From 2d22508344532bdc20add41838819d8517bbb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 53/66] fix: strain initialization of cheapest insertion
 started routes with infeasible pairs

---
 verypy/classic_heuristics/cheapest_insertion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index fd41d42..7e02127 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -300,9 +300,13 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
         # use the strain function to calculate the first insertion
         #  for parametrized_insertion_criteria this leads to 
         #  (\lambda-1)c_{oi}-c_{ij}+c_{ij}
+        #  (of the pairs that fit on one route)
         seed_customers = [
                 ((insertion_strain_callback(D, 0, i, j)[0], -D[i,j]), (i,j))
-                            for i in range(1,len(D)) for j in range(i,len(D))]
+                            for i in range(1,len(D)) for j in range(i,len(D))
+                            if i==j or not (
+                                (C and d[i]+d[j]-C_EPS>C) or
+                                (L and objf([0,i,j,0], D)-S_EPS>L))]
         seed_customers.sort(reverse=False)
         #(seed_customers)
     elif callable(initialize_routes_with):
-- 
2.43.0


From 835c12f76acab9a84b5930285b175bb36c02c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 54/66] fix: Gillett & Miller sweep never improved routes
 unless both limits were set

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..204b54b 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -151,7 +151,7 @@ def _improvement_callback(route_data, callback_datastructures,
     
     ## G&M Step 9    
     
-    if not ((L and D2-S_EPS<L) and (C and D2_demand-C_EPS<=C)):
+    if (L and D2-S_EPS>L) or (C and D2_demand-C_EPS>C):
         if __debug__:
             log(DEBUG-2,"G&M Step 9, rejecting replacement of KII=n%d with JJX=n%d"%
                   (to_remove_node_KII, candidate_node_JJX))
@@ -255,12 +255,12 @@ def _improvement_callback(route_data, callback_datastructures,
         D5_route_nodes.add(candidate_node_JII)
         D5_route,D5 = solve_tsp(D, list(D5_route_nodes))
         D5_demand = D2_demand+d[candidate_node_JII] if C else 0  
-        if not ((L and D5-S_EPS<L) and (C and D5_demand-C_EPS<=C)):
+        if (L and D5-S_EPS>L) or (C and D5_demand-C_EPS>C):
             if __debug__:
                 log(DEBUG-2, "G&M Step 13, rejecting replacement of KII=n%d with JJX=n%d and JII=n%d"%
                     (to_remove_node_KII, candidate_node_JJX, candidate_node_JII))
                 log(DEBUG-3, "  which would have formed a route %s (%.2f)"%(str(D5_route),D5))
-                if D5_demand-C_EPS>C:
+                if (C and D5_demand-C_EPS>C):
                     log(DEBUG-3," violating the capacity constraint")
                 else:
                     log(DEBUG-3," violating the maximum route cost constraint")
-- 
2.43.0


From 5076a159f1f8c3d976161f7153de7f33630483a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 55/66] fix: solving a random problem from the command line
 crashed without a solution

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 508783b..cb6169d 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -318,7 +318,8 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From 453a025d25aa2092e03129bf5ba2f2c5f367d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:32 +0000
Subject: [PATCH 56/66] fix: command line of the TSP solvers failed on rounding
 errors

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index cb6169d..ad45230 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -245,7 +245,8 @@ def tsp_cli(tsp_f_name, tsp_f):
         tsp_o = objf(tsp_sol,D)
         print("SOLUTION:", str(tsp_sol))
         print("COST:", tsp_o)  
-        assert(tsp_f==tsp_o)
+        # the costs may have been summed in different order
+        assert(abs(tsp_f-tsp_o)<=1e-6*max(1.0, abs(tsp_o)))
     else:
         print("usage: tsp_solver_%s.py TSPLIB_file.tsp"%tsp_f_name, file=sys.stderr)
          
-- 
2.43.0


From 3ae4124bb13053ffee492d3d9da8f09e954998e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:09 +0000
Subject: [PATCH 57/66] fix: interrupted Gillett & Miller left the distance
 matrix changed

---
 verypy/classic_heuristics/gillet_miller_sweep.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index 204b54b..a1657be 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -50,10 +50,12 @@ def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
     old_path_end_distance = D[from_node, to_node]
     D[from_node, to_node] = 0.0
     D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    try:
+        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
+    finally:
+        # restore original weights (also if the solver is interrupted)
+        D[from_node, to_node] = old_path_end_distance
+        D[to_node, from_node] = old_path_end_distance
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From b04a2fad3876129048f14a6b8cc47d7b386a751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 58/66] fix: assignment heuristic used the depot as a seed and
 ignored the last seed

The rows of D_s are the depot and the K seeds, but the insertion costs were
taken from rows 0..K-1.
---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 5848ed8..df1704f 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -122,7 +122,7 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
     Y_ik_keys = [(i,k) for k in range(K) for i in range(1,N)]
     
     # delivery cost approximation coefficients for the objective function
-    insertion_cost = {(i,k): D_s[0,i]+D_s[k,i]-D_s[k,0] \
+    insertion_cost = {(i,k): D_s[0,i]+D_s[k+1,i]-D_s[k+1,0] \
                               for i,k in Y_ik_keys}
                                   
     # variables and the objective
-- 
2.43.0


From 8f0ef9c54fb8ec4ff3f0db96492fe3cb13fce481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 59/66] fix: matching heuristic did not solve a matching
 problem

The constraints allowed a route in several of the chosen pairs, as they only
limited its pairs as the first one of a pair.
---
 verypy/classic_heuristics/matchingvrp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index b7b6861..f0f247d 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -52,10 +52,11 @@ __status__ = "Development"
     
 def _mmp_add_cnts_sum(m, x_ij, x_ij_keys, w_ij, n):
     ## constraints
+    # (each route is in at most one of the pairs, be it the first or the second)
     for k in range(0,n):
-        active_vars = x_ij.sum(k,'*')
+        active_vars = x_ij.sum(k,'*')+x_ij.sum('*',k)
         if active_vars.size()>0:
-            m.addConstr( active_vars == 1, "m_%d"%k )
+            m.addConstr( active_vars <= 1, "m_%d"%k )
 
 def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     """A helper function that solves a weighted maximum matching problem.
@@ -89,12 +90,16 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
         log(DEBUG-1, "Gurobi runtime = %.2f"%m.Runtime)
     
     if m.Status == GRB.OPTIMAL:
+        matched = [k for k, v in enumerate(m.X) if v>0.5]
+        if not matched:
+            # no merge improves the solution, consider them one at a time
+            matched = range(len(x_ij_keys))
         if w2_ij==None:
             max_wt, max_merge = max( (w1_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v>0.5 )
+                                      for k in matched )
         else:
             max_wt, _, max_merge = max( (w1_ij[k], w2_ij[k], x_ij_keys[k])
-                                      for k, v in enumerate(m.X) if v>0.5 )
+                                      for k in matched )
             
         return max_wt, max_merge[0], max_merge[1]
     elif m.Status == GRB.TIME_LIMIT:
-- 
2.43.0


From 77dd05178434a389107cdb35164599f91c25f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:04 +0000
Subject: [PATCH 60/66] fix: petal heuristic returned too long routes without
 the triangle inequality

---
 verypy/classic_heuristics/petalvrp.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 7b13512..e6db75c 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -536,9 +536,11 @@ def _log_debug_scp_info(ptl_set, nptl, routes_with_idxs, is_feasible, active_K):
     else:
         log(DEBUG-2,"It produced NO solution") 
 
-def _remove_multiserved(chosen_ptl_routes, D):
+def _remove_multiserved(chosen_ptl_routes, D, L=None):
     """If the customer serve constraints are lifted, it is possible that 
-    a customer is (unncessarily) served twice, fix the solution."""
+    a customer is (unncessarily) served twice, fix the solution. Returns False
+    if the result is not feasible: not all customers are served or, as D may 
+    not satisfy the triangle inequality, removing made a route too long."""
     served=[[] for i in range(len(D))]
     served_too_many_times = []
     nserved = 1 #depot served always
@@ -577,7 +579,8 @@ def _remove_multiserved(chosen_ptl_routes, D):
                         riu,niu = pos
                         if riu==rri and niu>rni:
                             slu[islu] = (riu,niu-1)
-    return nserved==len(D)
+    return nserved==len(D) and \
+           (not L or all(objf(r,D)-S_EPS<=L for r in chosen_ptl_routes))
 
 def petal_init(points, D, d, C, L, K=None,
                minimize_K = False, 
@@ -851,7 +854,7 @@ def petal_init(points, D, d, C, L, K=None,
                             log(DEBUG-2, "Check if some customers are served "+
                                          "multiple times and remove those "+
                                          "visits that are unnecessary")
-                        sol_feasible = _remove_multiserved(chosen_ptl_routes, D)
+                        sol_feasible = _remove_multiserved(chosen_ptl_routes, D, L)
                     else:
                         # Once the first feasible solution is found, we no longer 
                         #  accept infeasible ones!
@@ -968,6 +971,10 @@ def petal_init(points, D, d, C, L, K=None,
                 
                 # Store petals that are new
                 for ird in new_petal_candidates:
+                    # if D does not satisfy triangle inequality, a removal may
+                    #  have made the petal infeasible
+                    if L and ird.cost-S_EPS>L:
+                        continue
                     ird.update_node_set()
                     ird.normalize()
                     tuple_r = tuple(ird.route)
-- 
2.43.0


From a427659662a22eeed87e49db86c5975c7ae42b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:36 +0000
Subject: [PATCH 61/66] fix: sweep removed the second last node of a too long
 last route

---
 verypy/classic_heuristics/sweep.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..6c0275a 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -226,15 +226,23 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
             if L:
+                # if there are no nodes left, sweep_pos is that of the last node
+                #  of the route (and not that of the next to add)
+                next_pos = sweep_pos
+                if sweep_node is None:
+                    next_pos = _step(sweep_pos, step_inc, max_sweep_idx)
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, next_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=next_pos:
                     sweep_pos = L_feasible_pos  
                     if sweep_node!=None:
                         sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    else:
+                        # the next step is to the first of the removed nodes
+                        sweep_pos = _step(sweep_pos, -step_inc, max_sweep_idx)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
-- 
2.43.0


From e923bb049ac9500a0d6e16f1da06bfa62c80a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:46 +0000
Subject: [PATCH 62/66] fix: insertion with more emerging routes than customers
 crashed

---
 verypy/classic_heuristics/cheapest_insertion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 7e02127..8c477f7 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -314,8 +314,11 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     else:
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
-    route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+    route_datas = []
+    for k in range(emerging_route_count):
+        # there may be less customers (and the seeds may have several of them)
+        if unrouted:
+            route_datas.append(_initialize_new_route(seed_customers, unrouted, D, d))
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From 79f0d14232900bb3dfb3f6d79bc907d76545780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:32 +0000
Subject: [PATCH 63/66] fix: savings visualizer failed on a merge rejected
 before the first merge

---
 verypy/visualizers/visualize_savings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/visualizers/visualize_savings.py b/verypy/visualizers/visualize_savings.py
index 5c163a0..e828157 100644
--- a/verypy/visualizers/visualize_savings.py
+++ b/verypy/visualizers/visualize_savings.py
@@ -34,6 +34,10 @@ def _process_savings_debug_line(line, normalization_parameters, currentK,
     if pmo:
         complete_routes[:] = to_restore_routes
         active_nodes[:] = [int(pmo.group(1)), int(pmo.group(2))]
+        # unmerged nodes are on routes of their own
+        for n in active_nodes:
+            if not any(n in r for r in complete_routes):
+                complete_routes.append([0,n,0])
         changed = False
         
     if SHOW_INFEASIBLE and "Reject merge due" in line:
-- 
2.43.0


From cfe2c3b5fa9d175e3dbe5a2ca94ea341244ce69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:32 +0000
Subject: [PATCH 64/66] fix: GUI could not export in the VRPH format, and
 failed without a solution or when canceled

---
 verypy/VeRyPyGui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPyGui.py b/verypy/VeRyPyGui.py
index 7ae6fcd..109807d 100644
--- a/verypy/VeRyPyGui.py
+++ b/verypy/VeRyPyGui.py
@@ -62,6 +62,7 @@ class VeRyPyGuiApp:
         if not self.solution:
             tk.messagebox.showerror(title="VeRyPy export error",
                 message="There is no solution to export.\nPress solve first.")
+            return
 
         filetypes = (
             ('OPT file', '*.opt'),
@@ -70,11 +71,13 @@ class VeRyPyGuiApp:
         filename = filedialog.asksaveasfilename(
             title='Save a solution file',
             filetypes=filetypes)
+        if not filename:
+            return # canceled
         with open(filename, 'w') as wf:
             if splitext(filename)[1].lower()==".opt":
                 wf.write(as_OPT_solution(self.solution_cost, self.solution))
             else:
-                wf.write(as_VRPH_solution(self.solution))
+                wf.write(" ".join(str(n) for n in as_VRPH_solution(self.solution)))
 
     def create_gui(self):
         self.root = tk.Tk()
-- 
2.43.0


From 6b07a7f6ee67cfe8b27d9be00d9a2bcab0ff7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:30 +0000
Subject: [PATCH 65/66] fix: local search could repeat moves that improve by a
 rounding error forever, if distances are large

---
 verypy/classic_heuristics/lr3opt.py          | 5 +++--
 verypy/local_search/inter_route_operators.py | 5 +++++
 verypy/local_search/intra_route_operators.py | 6 +++++-
 verypy/local_search/naive_implementations.py | 6 +++++-
 verypy/local_search/solution_operators.py    | 4 +++-
 verypy/util.py                               | 9 +++++++++
 6 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index bee5d92..e84e64f 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -36,7 +36,8 @@ except ImportError:
 from verypy.cvrp_ops import recalculate_objective, normalize_solution
 from verypy.local_search.solution_operators import do_3optstar_move
 from verypy.local_search import LSOPT
-from verypy.util import without_empty_routes, sol2routes, routes2sol
+from verypy.util import without_empty_routes, sol2routes, routes2sol,\
+                        cost_epsilon
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -62,7 +63,7 @@ def _check_lr3opt_move(D, C, L, removed_weights, best_delta,
     code, which was not preferable."""
     
     # The penalty multipliers magnify also the rounding errors.
-    eps = S_EPS*max([1.0]+[lm for lm in lambdas if lm is not None])
+    eps = cost_epsilon(removed_weights, L or 0)*max([1.0]+[lm for lm in lambdas if lm is not None])
     
     ## Calculate the penalties that are lifted
     removed_penalties = 0
diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index b76d8ae..007a51b 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -47,6 +47,7 @@ from itertools import product, permutations
 
 from verypy.routedata import RouteData
 from verypy.local_search import LSOPT, ROUTE_ORDER_SENSITIVE_OPERATORS
+from verypy.util import cost_epsilon
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -88,6 +89,7 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
     if not route2_data.aux_data_updated:
         route2_data.update_auxiliary_data(D,d)
 
+    S_EPS = cost_epsilon(route1_data[1], route2_data[1])
     if not best_delta:
         best_delta = 0
     best_move = None
@@ -240,6 +242,7 @@ def do_1point_move(route1_data, route2_data, D, d=None,
     route1, r1_l, r1_d, _ = route1_data
     route2, r2_l, r2_d, _ = route2_data
     
+    S_EPS = cost_epsilon(route1_data[1], route2_data[1])
     if not best_delta:
         best_delta = 0
     best_move = None
@@ -327,6 +330,7 @@ def do_2point_move(route1_data, route2_data, D, d=None,
     route1, r1_l, r1_d, _ = route1_data
     route2, r2_l, r2_d, _ = route2_data
     
+    S_EPS = cost_epsilon(route1_data[1], route2_data[1])
     if not best_delta:
         best_delta = 0
     best_move = None
@@ -609,6 +613,7 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
     Research Society, 23(3), pp.333-344.
     """
 
+    S_EPS = cost_epsilon(route1_data[1], route2_data[1], route3_data[1])
     if not best_delta:
         best_delta = 0
     best_move = None
diff --git a/verypy/local_search/intra_route_operators.py b/verypy/local_search/intra_route_operators.py
index 637ace8..ff9880b 100644
--- a/verypy/local_search/intra_route_operators.py
+++ b/verypy/local_search/intra_route_operators.py
@@ -45,7 +45,7 @@ from __future__ import division
 from builtins import range
 
 from verypy.local_search import LSOPT
-from verypy.config import COST_EPSILON as S_EPS
+from verypy.util import objf, cost_epsilon
 
 __author__ = "Jussi Rasku"
 __copyright__ = "Copyright 2022, Jussi Rasku"
@@ -63,6 +63,7 @@ def do_2opt_move(route, D, strategy=LSOPT.FIRST_ACCEPT, best_delta=None):
     """
 
     rN = len(route)
+    S_EPS = cost_epsilon(objf(route, D))
     best_move = None
     if not best_delta:
         best_delta = 0
@@ -105,6 +106,7 @@ def do_3opt_move(route, D, strategy=LSOPT.FIRST_ACCEPT, best_delta=None):
     """ 3-opt local search operation for the symmetric distances D """
  
     rN = len(route)
+    S_EPS = cost_epsilon(objf(route, D))
     best_move = None
     if not best_delta:
         best_delta = 0
@@ -272,6 +274,7 @@ def do_relocate_move(route, D, strategy=LSOPT.FIRST_ACCEPT, best_delta=None):
     """
 
     rN = len(route)
+    S_EPS = cost_epsilon(objf(route, D))
     best_move = None
     if not best_delta:
         best_delta = 0
@@ -323,6 +326,7 @@ def do_exchange_move(route, D, strategy=LSOPT.FIRST_ACCEPT, best_delta=None):
     """
 
     rN = len(route)
+    S_EPS = cost_epsilon(objf(route, D))
     best_move = None
     if not best_delta:
         best_delta = 0
diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 198534f..385d694 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -22,7 +22,7 @@ from builtins import range
 from itertools import groupby
 from time import time
 
-from verypy.util import objf
+from verypy.util import objf, cost_epsilon
 from verypy.local_search import LSOPT
 
 from verypy.config import COST_EPSILON as S_EPS
@@ -100,6 +100,7 @@ def do_naive_2opt_move(solution,D,d,C,L,
     """
     
     sol_f = objf(solution, D)
+    S_EPS = cost_epsilon(sol_f)
     best_sol = None
     best_found = False
     if not best_delta:
@@ -164,6 +165,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
     demands = d
     
     sol_f = objf(solution, D)
+    S_EPS = cost_epsilon(sol_f)
     best_sol = None
     best_found = False
     if not best_delta:
@@ -341,6 +343,7 @@ def do_naive_1point_move(solution,D,d,C,L,
     """
     
     sol_f = objf(solution, D)
+    S_EPS = cost_epsilon(sol_f)
     best_sol = None
     best_found = False
     if not best_delta:
@@ -399,6 +402,7 @@ def do_naive_2point_move(solution,D,d,C,L,
     """
     
     sol_f = objf(solution, D)
+    S_EPS = cost_epsilon(sol_f)
     best_sol = None
     best_found = False
     if not best_delta:
diff --git a/verypy/local_search/solution_operators.py b/verypy/local_search/solution_operators.py
index 775a86d..429077b 100644
--- a/verypy/local_search/solution_operators.py
+++ b/verypy/local_search/solution_operators.py
@@ -35,6 +35,7 @@ from builtins import range
 from collections import namedtuple
 from verypy.local_search import LSOPT
 
+from verypy.util import cost_epsilon
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -101,7 +102,8 @@ def _check_3opt_move(D, C, L, removed_weights, best_delta,
 
     # Would be an improvement and the move will not create 
     #  a loop route disconnected from a depot?
-    if (delta+S_EPS<best_delta):
+    if (delta+S_EPS<best_delta and
+        delta+cost_epsilon(removed_weights)<best_delta):
        
         # Constraint checks
         feasible = True
diff --git a/verypy/util.py b/verypy/util.py
index aaa9a3c..d5eb6db 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -16,6 +16,8 @@ from builtins import range
 from itertools import groupby    
 from operator import itemgetter
 
+from verypy.config import COST_EPSILON
+
 __author__ = "Jussi Rasku"
 __copyright__ = "Copyright 2022, Jussi Rasku"
 __credits__ = ["Jussi Rasku"]
@@ -53,6 +55,13 @@ def objf(sol, D):
     I.e., modifying this does not change the objective for the _algorithms_!"""
     return sum(( D[sol[i-1],sol[i]] for i in range(1,len(sol))))
 
+def cost_epsilon(*costs):
+    """The smallest cost difference that counts. It is COST_EPSILON, unless the
+    given (route) costs are so large that the rounding errors of adding and 
+    subtracting distances of that size are larger. Otherwise a local search
+    could repeat moves that "improve" by a rounding error forever."""
+    return max(COST_EPSILON, 1e-14*max(costs))
+
 def totald(sol, d):
     """A quick procedure for calclulating the total demand of a solution
     (or a route)."""
-- 
2.43.0


From 3fad007f4ad07a5ec76d69c8c9f8f084d61ed81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:38 +0000
Subject: [PATCH 66/66] fix: 3-opt* considered only the first nodes of a
 solution given with auxiliary data

---
 verypy/local_search/solution_operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verypy/local_search/solution_operators.py b/verypy/local_search/solution_operators.py
index 429077b..4d568dd 100644
--- a/verypy/local_search/solution_operators.py
+++ b/verypy/local_search/solution_operators.py
@@ -416,7 +416,6 @@ def do_3optstar_move(solution, D, demands=None,
     
     Note: due to how this is implemented, it may change the route order."""
 
-    sN = len(solution)
     best_move = None
     if best_delta is None:
         best_delta = 0
@@ -436,7 +435,7 @@ def do_3optstar_move(solution, D, demands=None,
     else:
         sol_data = solution
         solution = sol_data.sol
-    
+    sN = len(solution)
     
     # cached data tables containing:
     # edge end positions, end nodes, and cumulative demand and length (cost)
-- 
2.43.0

