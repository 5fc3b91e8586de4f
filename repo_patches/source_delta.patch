From a34694ae862ef8b0836acc015696fdce34d51f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 01/36] fix: push_back() continues after the last occupied
 segment, not after the last one looped over

---
 SegmentedArrayPair_Module.py | 4 +++-
 cpp/SegmentedArrayPair.h     | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..631b98e 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -108,7 +108,9 @@ class SegmentedArrayPair_C(object):
         if self.first_available_offset[outSA] == self.segment_length:
             # If another segment is already available, use it. Otherwise, allocate a new
             # segment.
-            self.current_segment[outSA] += 1
+            # The segment to use is the one after the last occupied segment. Don't rely on
+            # current_segment[] here: it's the position of the last loop over segments.
+            self.current_segment[outSA] = self.first_not_full_segment[outSA] + 1
             if self.current_segment[outSA] < self.nseg[outSA]:
                 #print("push_back: nseg=", self.nseg[outSA], "first_not_full_segment=", self.first_not_full_segment[outSA])
                 self.first_not_full_segment[outSA] += 1
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..fb28593 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -294,7 +294,8 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            // (current_segment[] may be left anywhere by the last loop over segments.)
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
@@ -363,7 +364,8 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            // (current_segment[] may be left anywhere by the last loop over segments.)
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
@@ -424,7 +426,8 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            // (current_segment[] may be left anywhere by the last loop over segments.)
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
-- 
2.43.0


From c31dc3fbeb96ab5abe9dcb5ae4087c2c3a377876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 02/36] fix: set_number_of_items(0) leaves an empty, usable
 storage

---
 SegmentedArrayPair_Module.py | 5 ++++-
 cpp/SegmentedArrayPair.h     | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 631b98e..f6cd83f 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -486,7 +486,10 @@ class SegmentedArrayPair_C(object):
 
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
-        (seg, offset) = divmod(n_items-1, self.segment_length)
+        if n_items > 0:
+            (seg, offset) = divmod(n_items-1, self.segment_length)
+        else: # No items: the next one goes into the first slot of the first segment
+            (seg, offset) = (0, -1)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index fb28593..e776d0f 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -232,8 +232,13 @@ namespace dnt
         // Compute the segment and offset of the last item. The
         // zero-based index of the last item is n_items-1
         // (seg, offset) = divmod(n_items-1, self.segment_length)
-        auto seg = (py::ssize_t) (n_items-1) / segment_length;
-        auto offset = (n_items - 1) % segment_length;
+        py::ssize_t seg = 0;
+        py::ssize_t offset = -1; // No items: the next one goes into the first slot
+        if (n_items > 0)
+          {
+            seg = (n_items - 1) / segment_length;
+            offset = (n_items - 1) % segment_length;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From 03e7a4bb3666f4f5ae41d35eb432bb0d41b3c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 03/36] fix: compiled 2D neutral mover hands find_facet the
 start of the path

---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From d43bf302a6e54f0f06832c85cadb0354b05470b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:48 +0000
Subject: [PATCH 04/36] fix: compiled 1D find_facet reports NO_FACET for a path
 that stays in the cell

---
 cpp/dolfin_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..38e67a7 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -457,8 +457,8 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
+        // The path ends inside the cell: no facet was crossed.
+        return py::make_tuple(facet, dxFraction, nullptr);
                                      
       } // else if (gDim == 1)
 
-- 
2.43.0


From 66bdf42e4c8cc6fe73162920d475005f806bb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:48 +0000
Subject: [PATCH 05/36] fix: spherical cell volume does not depend on the order
 of the cell's vertices

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..9867785 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -521,7 +521,7 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0) # Vertices may be in either order
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From af0300067d0c3701a654d842e852a859c16793f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:48 +0000
Subject: [PATCH 06/36] fix: compute_cell_index returns NO_CELL for a point
 outside the mesh

---
 Dolfin_Module.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 9867785..740bd3b 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -465,10 +465,8 @@ class Mesh_C(object):
 
         # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
         # (eight Fs and F = 1111)
-#        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
-            print(fncName, ": particle is out of bounds")
-            sys.exit()
+        if first == 0xFFFFFFFF:
+            return Mesh_C.NO_CELL
 
         return first
 #    def compute_cell_index(self, point):ENDDEF
-- 
2.43.0


From 4396f18061704cbb5fc83247c9b612d94400f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:03 +0000
Subject: [PATCH 07/36] fix: uniform-field mover counts a full last segment
 once

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..c9d5554 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if (ipOut != self.SEGMENT_LENGTH): # A full last segment has already been counted
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From 56a7a68e2a9c600aab696aeff0f519d56f67813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 08/36] fix: species number and kinetic energy sum only the
 occupied slots of a segment

---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index c9d5554..9cbeda2 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,7 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +799,7 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From d123c999c60f23116b5b8ebca33ec508ad307204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 09/36] fix: History_C reads the point limit from its input
 object

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From 5a79dfcddb0376e7a84247b5c2a709e604102de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:57 +0000
Subject: [PATCH 10/36] fix: a full trajectory does not end the recording of
 the others

---
 Particle_Module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 9cbeda2..f3ba8e7 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2764,7 +2764,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue # The other trajectories may have room
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2801,6 +2801,10 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 9a5375fc77765b85ed32d12a41d5f759f85cdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 11/36] fix: compiled 2D charged mover records both field
 components at a boundary crossing

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..6d2118e 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -365,13 +365,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From 8653646fab7d97212810f185183986e8c87bfe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:09 +0000
Subject: [PATCH 12/36] fix: compiled neutral movers end the trajectory of a
 particle that was flagged for deletion

---
 cpp/advance_neutral_species_cartesian_xy.cpp  | 8 --------
 cpp/advance_neutral_species_cartesian_xyz.cpp | 8 --------
 2 files changed, 16 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index eac778b..0f74aea 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -97,14 +97,6 @@
       {
         for (auto ipIn = 0; ipIn < npSeg; ipIn++)
           {
-            // Skip deleted particles
-            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xy>::DELETE_FLAG) != 0b0)
-              {
-                indexChange = true; // Particle SA indices are stale past this point
-                                    // due to deletions.
-                continue; // skip to the next particle in the "in" segment.
-              }
-
             // If this "out" segment is full, get the next "out" segment, since
             // there are still some "in" particles to advance.  If there are no more
             // "out" segments, allocate a new one.
diff --git a/cpp/advance_neutral_species_cartesian_xyz.cpp b/cpp/advance_neutral_species_cartesian_xyz.cpp
index 3d07fdc..6dd3d53 100644
--- a/cpp/advance_neutral_species_cartesian_xyz.cpp
+++ b/cpp/advance_neutral_species_cartesian_xyz.cpp
@@ -113,14 +113,6 @@
       {
         for (auto ipIn = 0; ipIn < npSeg; ipIn++)
           {
-            // Skip deleted particles
-            if ((psegIn[ipIn].bitflags_ & Pstruct<Ptype::cartesian_xyz>::DELETE_FLAG) != 0b0)
-              {
-                indexChange = true; // Particle SA indices are stale past this point
-                                    // due to deletions.
-                continue; // skip to the next particle in the "in" segment.
-              }
-
             // If this "out" segment is full, get the next "out" segment, since
             // there are still some "in" particles to advance.  If there are no more
             // "out" segments, allocate a new one.
-- 
2.43.0


From 70ef08cfce008e5aae66fe0ae185116b1e3c7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:09 +0000
Subject: [PATCH 13/36] fix: push_back() leaves the segment it wrote to as the
 current "out" segment

---
 SegmentedArrayPair_Module.py | 4 ++++
 cpp/SegmentedArrayPair.h     | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index f6cd83f..98c8c08 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -124,6 +124,10 @@ class SegmentedArrayPair_C(object):
             # These two counters should be the same:                
             assert (self.first_not_full_segment[outSA] == self.current_segment[outSA]), "first_not_full_segment = %d, current_segment = %d" % (self.first_not_full_segment[outSA], self.current_segment[outSA])
                 
+        # The segment written to is now the current "out" segment (a loop over the segments
+        # may have left current_segment[] somewhere else).
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
 # Untested:
         if type(item_input) is np_m.ndarray:
             item = item_input[0]
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index e776d0f..c37de96 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -334,6 +334,9 @@ namespace dnt
                 }
         */
         // Copy the item to the end of the SA
+        // The segment written to is now the current "out" segment (a loop over the segments
+        // may have left current_segment[] somewhere else).
+        current_segment[outSA] = first_not_full_segment[outSA];
         auto ip = first_available_offset[outSA];
         pseg[ip] = inputArray[0];
         
@@ -396,6 +399,9 @@ namespace dnt
                 pseg[ip][i] = item_input[i];
                 }
         */
+        // The segment written to is now the current "out" segment (a loop over the segments
+        // may have left current_segment[] somewhere else).
+        current_segment[outSA] = first_not_full_segment[outSA];
         auto ip = first_available_offset[outSA];
         pseg[ip].set_from_list_or_tuple(item_input); // OR use an overloaded .set() function.
 
@@ -450,6 +456,9 @@ namespace dnt
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
 
+        // The segment written to is now the current "out" segment (a loop over the segments
+        // may have left current_segment[] somewhere else).
+        current_segment[outSA] = first_not_full_segment[outSA];
         auto ip = first_available_offset[outSA];
         pseg[ip].set_from_list_or_tuple(item_input); // OR use an overloaded .set() function.
 
-- 
2.43.0


From 717b5c19d4ebd0d7d4820c8994416202a46658e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 14/36] fix: Python neutral mover hands the move vector to the
 boundary functions

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index f3ba8e7..331202e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2018,7 +2018,8 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    # NB: "dx = ..." would reassign dx, so that the BC functions would not see it.
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From eae7f3279aabe8078be1aeb9eadfe3e0f467043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 15/36] fix: Python neutral mover can report its tracking
 errors

---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 331202e..1f18879 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1898,7 +1898,9 @@ class Particle_C(object):
         """
 
         printInfoBoundaryCrossing = False
-        
+
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
+
         # Set local names for the passed parameters
         dt = ctrl.dt
         step = ctrl.timeloop_count
-- 
2.43.0


From fd95f15f4f886aade57f0a6e974452d238123381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:06 +0000
Subject: [PATCH 16/36] fix: charged mover handles fields switched off for a
 species

With the solved field switched off, Eseg stayed None, so adding an external
field or recording a boundary crossing of a followed particle failed; with
the external field switched off, recording a crossing used Eext_seg before
assignment.
---
 Particle_Module.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 1f18879..793be2d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1490,7 +1490,9 @@ class Particle_C(object):
             #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
             #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
-            Eseg = None # This is for the case where no fields are to be applied to the particles,
+            # Start from zero field, for the case where no solved field is to be applied to the particles.
+            self.negE[0:npSeg] = self.zeroE[0:npSeg]
+            Eseg = self.negE[0:npSeg] # A ref, not a copy.
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                     # Interpolate the solved electric field to the particle positions
@@ -1505,10 +1507,7 @@ class Particle_C(object):
                     # operation on each component of E.)
                     for n in Eseg.dtype.names:
                         Eseg[n] *= -1.0
-            else:
-                self.negE[0:npSeg] = self.zeroE[0:npSeg]
-                Eseg = self.negE[0:npSeg] # A ref, not a copy.
-#                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
+            Eext_seg = None # Stays None if no external field is to be applied to the particles.
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
@@ -1754,7 +1753,7 @@ class Particle_C(object):
                                     E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None:
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
-- 
2.43.0


From 99fe98ed2b75c6d8ced4b798cfb5018685fd0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:18 +0000
Subject: [PATCH 17/36] fix: external random field is evaluated for live
 particles only, and in more than 1D

Unused slots of a partly filled segment were passed as points, and a whole
vector was assigned to one record of the field array.
---
 Dolfin_Module.py   | 3 ++-
 Particle_Module.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 740bd3b..d852c29 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1194,7 +1194,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
diff --git a/Particle_Module.py b/Particle_Module.py
index 793be2d..0ef9944 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1112,7 +1112,7 @@ class Particle_C(object):
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
-                        external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                        external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                         Eext_seg = self.Eext[0:npSeg]
                         # The following is a vector operation on each component of E. This is the best
                         # you can do for a structured array. I'm not sure that you can add arrays
@@ -1511,7 +1511,7 @@ class Particle_C(object):
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
-                    external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                    external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                     Eext_seg = self.Eext[0:npSeg]
                     # The following is a vector operation on each component of E. This is the best
                     # you can do for a structured array. I'm not sure that you can add arrays
-- 
2.43.0


From 69d62ef878707eb05cdaf6ea146dbc9462b89bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:22 +0000
Subject: [PATCH 18/36] fix: compiled charged movers honour accel_only and
 fields switched off for a species

---
 ...charged_species_in_E_field_cartesian_x.cpp | 21 +++++++++++--------
 ...harged_species_in_E_field_cartesian_xy.cpp | 21 +++++++++++--------
 ...charged_species_in_E_field_spherical_r.cpp | 21 +++++++++++--------
 3 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..d1aa545 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -176,7 +176,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // No field, unless one is to be applied to this species.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@3" << std::endl;
@@ -279,14 +279,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 6d2118e..fd39bf6 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -145,7 +145,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_xy@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // No field, unless one is to be applied to this species.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
 
@@ -243,14 +243,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..e1ba078 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -179,7 +179,7 @@
 
     // Loop over the particles in this species
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE; // No field, unless one is to be applied to this species.
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_spherical_r@3" << std::endl;
@@ -284,14 +284,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].r0_ = psegOut[ipOut].r_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].r0_ = psegOut[ipOut].r_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 3878e1d15bb3f02f93ad3253ef182a7393cf79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:10 +0000
Subject: [PATCH 19/36] fix: compiled charged movers can be called without a
 solved field

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 0ef9944..ea7e356 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1403,7 +1403,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = None if neg_E_field is None else neg_E_field.function.cpp_object() # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
-- 
2.43.0


From 01181620dc79e653e7b92a7e1f37386f84ea19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:08 +0000
Subject: [PATCH 20/36] fix: compiled uniform-field mover accepts a species
 with no particles

---
 cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
index deb9ac2..291faf0 100644
--- a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
+++ b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
@@ -43,6 +43,8 @@
     // auto sap = sap_map[std::string(species_name)];
     auto sap = particle_P.attr("sap_dict")[species_name].cast<SegmentedArrayPair<Ptype::cartesian_xyz> *>();
     
+    if (sap->get_number_of_items() == 0) return; // There are no particles to advance.
+
     const py::ssize_t segmentLength = sap->get_segment_length();
     
     // Start a loop over the sap segments. segTuple contains (npSeg, psegIn, psegOut)
-- 
2.43.0


From 9c89662268186575a85c38f5a2b94a36a2f528f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:23 +0000
Subject: [PATCH 21/36] fix: initialize_particles calls creation functions with
 the step, and reports an unknown distribution type

---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index ea7e356..96bcff5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -484,9 +484,10 @@ class Particle_C(object):
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                step = 0
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From ce61a16d1c8e091d3c17f206af6400310da85807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 22/36] fix: UserParticles_1D lists the crossings attribute of
 its particles

---
 UserParticles_1D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/UserParticles_1D.py b/UserParticles_1D.py
index 32825ea..5017f93 100644
--- a/UserParticles_1D.py
+++ b/UserParticles_1D.py
@@ -71,9 +71,10 @@ class UserParticleDistributions_C(object):
         bitflags0 = bitflags0 | Particle_C.TRAJECTORY_FLAG
         cell_index = Mesh_C.NO_CELL
         unique_ID = Particle_C.UNIQUE_ID_COUNTER; Particle_C.UNIQUE_ID_COUNTER += 1
+        crossings = 0
         
         # Trim the number of coordinates here if needed to match "position_coordinates" variable in ParticleInput_C
-        p0 = (x0, x0, ux0, weight0, bitflags0, cell_index, unique_ID)
+        p0 = (x0, x0, ux0, weight0, bitflags0, cell_index, unique_ID, crossings)
 
         ## Second particle
 
@@ -87,7 +88,7 @@ class UserParticleDistributions_C(object):
         unique_ID = Particle_C.UNIQUE_ID_COUNTER; Particle_C.UNIQUE_ID_COUNTER += 1
         
         # Trim the number of coordinates here to match "position_coordinates" variable in ParticleInput_C
-        p1 = (x1, x1, ux1, weight1, bitflags1, cell_index, unique_ID)
+        p1 = (x1, x1, ux1, weight1, bitflags1, cell_index, unique_ID, crossings)
 
 #        particle_list = (p0,) # Need the final comma , for one particle.
 #        particle_list = (p1,) # Need the final comma , for one particle.
-- 
2.43.0


From a6107b33c78e8d02d20abb1075a712ed5dccd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 23/36] fix: particle output file is closed when asked, and a
 new file takes a snapshot at any step

---
 Particle_Module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 96bcff5..79ccc3a 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3148,6 +3148,7 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        self.h5_last_write_step = -1 # Nothing has been written to this file yet
 
         # Flush the buffer
         self.particle_output_handle.flush()
@@ -3178,6 +3179,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From b951f33a85ab7c04cd497985ba00290d064bc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:03 +0000
Subject: [PATCH 24/36] fix: Field_C compares field_type by value

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index d852c29..5609c78 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -916,9 +916,9 @@ class Field_C(object):
         self.mesh_gdim = mesh_M.mesh.geometry().dim()
         self.mesh_tdim = mesh_M.mesh.topology().dim()
 
-        if field_type is 'scalar':
+        if field_type == 'scalar':
             self.function_space = df_m.FunctionSpace(self.mesh_M.mesh, element_type, element_degree)
-        elif field_type is 'vector':
+        elif field_type == 'vector':
             self.function_space = df_m.VectorFunctionSpace(self.mesh_M.mesh, element_type, element_degree)
         self.field_type = field_type
 
-- 
2.43.0


From a14add51395d2f53102f7c8e991e8ce5c4d2b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 25/36] fix: Field_C.multiply_values on a subdomain multiplies
 each value once and honours gaussian

---
 Dolfin_Module.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 5609c78..2653f40 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1016,25 +1016,17 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
+            # A DOF (e.g., a vertex value) can belong to several cells of the subdomain, so
+            # collect the DOFs first: each one is multiplied once.
+            dofSet = set()
             for icell in range(subdomain.ncell):
-                cellIndex = subdomain.cell_index[icell]
-
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
+                dofSet.update(self.function_space.dofmap().cell_dofs(subdomain.cell_index[icell]))
+            dofIndices = np_m.array(sorted(dofSet), dtype=np_m.intc)
+            if gaussian is True:
+                self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, len(dofIndices))
+            else:
                 self.function_values[dofIndices] *= multiplier
-            
+
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
 
-- 
2.43.0


From a58e3e7ecb656ef27f27902c1ee5ef6835512da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 26/36] fix: Field_C.set_gaussian_values works on a subdomain
 with more cells than field values

---
 Dolfin_Module.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 2653f40..862d900 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1053,8 +1053,7 @@ class Field_C(object):
         else:
             self.function_values[:] = 0.0 # Initialize all the elements to zero.
             numberOfValues = subdomain.ncell
-            randomVals = self.scratch_array # Alias to a numpy scratch array
-            randomVals[0:numberOfValues] = np_m.random.normal(0.0, standard_deviation, numberOfValues)
+            randomVals = np_m.random.normal(0.0, standard_deviation, numberOfValues) # One value per cell
 
 # Replace cell-loop with a loop over unique DoFs. It's OK as-is for the E-field, which is a cell quantity.
             
-- 
2.43.0


From 26fdd6d22f0063bb395e324577422663775ee342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 27/36] fix: solve_for_phi leaves the caller's charge unchanged
 when a factor is given

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 862d900..210f013 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1670,10 +1670,10 @@ class PoissonSolve_C(object):
         # Charge sources (e.g., from delta-function kinetic particles) that are
         # already in the format needed to be added directly to the source-term b.
         if assembled_charge is not None:
+            self.b[:] = assembled_charge.function_values
             # Apply a spacecharge multiplier
             if assembled_charge_factor is not None:
-                assembled_charge.function_values[:] *= assembled_charge_factor
-            self.b[:] = assembled_charge.function_values
+                self.b[:] *= assembled_charge_factor
             
             # Apply the boundary conditions
             for bc in self.bcs:
-- 
2.43.0


From 34be8080d49a595365ec8dfe345a346f901e37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:29 +0000
Subject: [PATCH 28/36] fix: compute_negE updates the field in place, so
 function_values shows the new field

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 210f013..bb02d96 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1724,7 +1724,8 @@ class PoissonSolve_C(object):
         negE = df_m.grad(self.u)
 
         function_space = self.neg_electric_field.function_space
-        self.neg_electric_field.function = df_m.project(negE, function_space)
+        # Store the result in the existing function, so that aliases to it stay valid
+        df_m.project(negE, function_space, function=self.neg_electric_field.function)
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From ab4571ef02febecd9bfa192396a4579df7fa39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:29 +0000
Subject: [PATCH 29/36] fix: assemble_source_expression gives a string
 expression the element of the potential

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index bb02d96..93d12be 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1592,7 +1592,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, element=self.V.ufl_element())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From c5c21be06273b1321ba91dbc36e8f101fe830f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 30/36] fix: source density in spherical coordinates is
 integrated with the volume element

---
 Dolfin_Module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 93d12be..118dc47 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1468,6 +1468,8 @@ class PoissonSolve_C(object):
         """
 
 
+        # The coordinate system determines the volume-element
+        self.coordinate_system = phi_F.mesh_M.coordinate_system
         # The finite-element function space
         self.V = phi_F.function_space
         # A dolfin Function
@@ -1609,6 +1611,9 @@ class PoissonSolve_C(object):
         # needed to integrate over the domain).
             
         L = source_expression*self.v*df_m.dx
+        if self.coordinate_system == '1D-spherical-radial':
+            r = df_m.SpatialCoordinate(self.V.mesh())
+            L = source_expression*self.v*r[0]**2*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
-- 
2.43.0


From 1b689889e6f34cad39efbbe67106508dac5b6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 31/36] fix: particle boundaries of 1D and 3D meshes are marked
 as the user's dictionary says

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..fa6a972 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,25 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        """x[0|1|2] contains the x, y, z coordinates of a point.
+        """
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -270,6 +289,9 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+                # Mark the boundaries with the integers given by the user
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
@@ -387,6 +409,13 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+                # Mark the boundaries with the integers given by the user
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0


From 840caf65a2df6313fdc9050482b0e154e2acc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 32/36] fix: boundary markers read from files are kept by the
 spherical mesh

---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..998670b 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,9 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From d0f795fd006edee05b3302b2655f201ac710cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 33/36] fix: a species declared neutral kept its charge

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 79ccc3a..bb3c372 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -101,6 +101,8 @@ class ParticleSpecies_C(object):
         if printWarningNonZeroCharge is True:
             if dynamics == 'neutral' and charge != 0:
                 print(fncName, "\tDnT WARNING: Species %s is neutral, but has a non-zero value of electric charge: %.3g. The charge will be ignored." % (name, charge))
+        if dynamics == 'neutral':
+            charge = 0.0
 
         self.name = name
         self.charge = charge
-- 
2.43.0


From 4f502a857a4242ac7ae91bf8e0bda058fe3ca684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 34/36] fix: Maxwellian particles can be created at any point
 of an elongated cell

Positions were drawn within the circumradius of the cell's midpoint, in each
coordinate, which does not reach the far vertices of elongated triangles and
tetrahedra.
---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index bb3c372..8fa9c81 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2988,9 +2988,11 @@ class Particle_C(object):
             cellIndex = domain.cell_index[icell]
 
             # Set positions and velocities
-            cellRad = domain.radius[icell]
             cellMid = domain.midpoint[icell]
             gDim = domain.gdim
+            # The vertices of a cell can be farther from its midpoint than the
+            # circumradius: up to 4/3 of it in a triangle and 3/2 in a tetrahedron.
+            cellRad = domain.radius[icell]*2.0*gDim/(gDim+1.0)
 
             for ip in range(numberPerCell):
                 # Put the first particle at the centroid
-- 
2.43.0


From e0becdf9b2c859e853689e6aed8371af08653495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 35/36] fix: boundaries of large meshes are marked (tolerance
 relative to the coordinate)

---
 UserMesh_y_Fields_FE2D_Module.py        | 4 ++--
 UserMesh_y_Fields_FE_XYZ_Module.py      | 6 +++---
 UserMesh_y_Fields_Spherical1D_Module.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/UserMesh_y_Fields_FE2D_Module.py b/UserMesh_y_Fields_FE2D_Module.py
index f7c54c5..2ee44df 100644
--- a/UserMesh_y_Fields_FE2D_Module.py
+++ b/UserMesh_y_Fields_FE2D_Module.py
@@ -112,7 +112,7 @@ class XBoundary(df_m.SubDomain):
 
     # Return true for points inside the subdomain
     def inside(self, x, on_boundary):
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.x_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[0]-self.x_boundary_value) < tol
 
 class YBoundary(df_m.SubDomain):
@@ -128,7 +128,7 @@ class YBoundary(df_m.SubDomain):
     def inside(self, x, on_boundary):
         """x[0|1|2] contains the x, y, z coordinates of a point.
         """
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.y_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[1]-self.y_boundary_value) < tol
 
 #class UserMeshInput2DCirc_C(object):ENDCLASS
diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index fa6a972..5c08c1a 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -94,7 +94,7 @@ class XBoundary_C(df_m.SubDomain):
 
     # Return true for points inside the subdomain
     def inside(self, x, on_boundary):
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.x_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[0]-self.x_boundary_value) < tol
 
 #class XBoundary_C(df_m.SubDomain):ENDCLASS
@@ -113,7 +113,7 @@ class YBoundary_C(df_m.SubDomain):
     def inside(self, x, on_boundary):
         """x[0|1|2] contains the x, y, z coordinates of a point.
         """
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.y_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[1]-self.y_boundary_value) < tol
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
@@ -132,7 +132,7 @@ class ZBoundary_C(df_m.SubDomain):
     def inside(self, x, on_boundary):
         """x[0|1|2] contains the x, y, z coordinates of a point.
         """
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.z_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[2]-self.z_boundary_value) < tol
 
 #class ZBoundary_C(df_m.SubDomain):ENDCLASS
diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index 998670b..78d29ee 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -127,7 +127,7 @@ class XBoundary(df_m.SubDomain):
     # Return true for points inside the subdomain
     def inside(self, x, on_boundary):
         # on_boundary is passed in with value True for all outer boundaries
-        tol = 1.0e-10
+        tol = 1.0e-10*max(1.0, abs(self.x_boundary_value)) # Allow for the round-off in large coordinates
         return on_boundary and abs(x[0]-self.x_boundary_value) < tol
 
 #class XBoundary(df_m.SubDomain):ENDCLASS
-- 
2.43.0


From 3587f2f5291b9b830238ecf26bc0cf3b3b6feb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:54 +0000
Subject: [PATCH 36/36] fix: per-physical-particle histories were wrong with
 less than one physical particle

---
 Particle_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 8fa9c81..8716e8e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2861,8 +2861,10 @@ class Particle_C(object):
                 # Get the number of physical particles in this species
                 speciesNumber = self.get_species_number(sp)
                 sp_ppp_hist = sp+'_ppp_' + hist
-                # Compute and store the per-particle value
-                self.histories.data_array[sp_ppp_hist][counter] = historyForSpecies/max(speciesNumber,1)
+                # Compute and store the per-particle value. (With no particles, there's
+                # nothing to divide by. There can be less than one physical particle.)
+                if speciesNumber == 0.0: speciesNumber = 1.0
+                self.histories.data_array[sp_ppp_hist][counter] = historyForSpecies/speciesNumber
                 historyForAllSpecies += historyForSpecies
             # Store to value summed over all species
             self.histories.data_array[hist][counter] = historyForAllSpecies
-- 
2.43.0

