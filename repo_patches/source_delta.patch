From e1404e5abf71fd8c1171e620f8d034ade1a3182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 01/43] fix: block resync recorded step lengths in units of the
 wrong base timestep

With integration_step > 1 (a DKD integrator for gas or stars) dt_next was nstep*timestep
with timestep still the minimum criterion instead of dt_max/nresync, i.e. twice too long.
---
 src/Common/Simulation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..66daeaa 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1853,6 +1853,11 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
 
+    // Set the integer length of the block and the base timestep that integer steps are measured in
+    nresync  = pow(2, level_step);
+    assert(nresync > 0);
+    timestep = dt_max / (DOUBLE) nresync;
+
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
     level_max_nbody = min(ComputeTimestepLevel(dt_min_nbody, dt_max), level_max);
@@ -1918,10 +1923,6 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       }
     }
 
-    nresync = pow(2, level_step);
-    assert(nresync > 0);
-    timestep = dt_max / (DOUBLE) nresync;
-
   }
   // If not resynchronising, check if any hydro/N-body particles need to move
   // up or down timestep levels.
-- 
2.43.0


From 825c520e37a8471cd100adebfa4d8009db3731ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 02/43] fix: step length of a particle moved to a newly added
 timestep level was zero

The integer step was computed with the level structure from before the new level was added, so
a particle dropping below the old bottom level got nstep = dt_next = 0; nstep was recomputed once
the new level was in place but dt_next was not.
---
 src/Common/Simulation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 66daeaa..18b9e08 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -2141,13 +2141,17 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       for (i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
-        if (part.nlast == n) part.nstep = pow(2, level_step - part.level);
+        if (part.nlast == n) {
+          part.nstep   = pow(2, level_step - part.level);
+          part.dt_next = part.nstep * timestep;
+        }
       }
     }
     if (nbody != NULL) {
       for (i=0; i<nbody->Nnbody; i++) {
         if (nbody->nbodydata[i]->nlast == n) {
           nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep * timestep;
         }
       }
     }
-- 
2.43.0


From a04ee90c81e7b289b52d451abb68473bb44efab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 03/43] fix: KDK velocity correction used the full step for
 prematurely ended steps

When a particle's step is cut short because of a neighbour's timestep level, part.dt kept the
original step length, so the second-order correction was applied over the wrong interval.
---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..55a9861 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -285,7 +285,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -316,7 +316,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = dn*timestep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From f6adfc7b6cbbac20d1a26aa407bc99e4a3d76b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 04/43] fix: DKD steps could be ended at times not aligned with
 the new timestep level

Ending the step at a half-step of the new level leaves the particle starting its next step at an
integer time that is not a multiple of its step, which aborts ComputeBlockTimesteps.
---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..65317fb 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -255,9 +255,8 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       level_new = part.levelneib - level_diff_max;
       nnewstep = pow(2,level_step - level_new);
 
-      // If new level is correctly synchronised at the half-step of the
-      // new-step (where acceleration is computed), then change all quantities
-      if ((2*dn)%nnewstep == 0) {
+      // If new level is correctly synchronised, then change all quantities
+      if (dn%nnewstep == 0) {
         if (dn > 0) part.nstep = dn;
         part.level = level_new;
         part.flags.set(active);
-- 
2.43.0


From 40907371fe2dc9a21be8258b0b79d84a7a9fbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 05/43] fix: global timestep was twice the limit for two-stage
 integrators

With integration_step = 2 a complete step spans two base timesteps, so the base timestep must be
half of the minimum criterion (as in the block-timestep case).
---
 src/Common/Simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 18b9e08..5301579 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1737,13 +1737,13 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     timestep = dt_min / (DOUBLE) integration_step;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 697df2eda7b63e6741c74dca0e29509a26007e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 06/43] fix: meshless runs dropped the half steps that DKD
 stars need

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 9705427..1e44d99 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -461,7 +461,6 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
   // Set time variables here (for now)
   nresync = 0;   // DAVID : Need to adapt this for block timesteps
   n = 0;
-  integration_step = 1;
   level_step = 1;
 
   // Set all relevant particle counters
-- 
2.43.0


From 5ca1f3869510303390e497bf17501ce4e98dc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 07/43] fix: a crash while writing could leave no usable
 restart snapshot

The restart log and the temporary restart snapshot were overwritten in place.  Write them under
another name and rename them once complete.
---
 src/Common/Simulation.cpp | 56 ++++++++++++++++++++++++++-------------
 src/Headers/Simulation.h  |  1 +
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 5301579..344110a 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -501,12 +501,9 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 //=================================================================================================
 string SimulationBase::Output(void)
 {
-  string filename;                  // 'Lite' output snapshot filename
-  string filename2;                 // Regular output snapshot filename
+  string filename;                  // Output snapshot filename
   string nostring;                  // String of number of snapshots
-  string fileend;                   // Name of restart file
   stringstream ss;                  // Stream object for preparing filename
-  ofstream outfile;                 // Stream of restart file
 
   debug2("[SimulationBase::Output]");
   CodeTiming::BlockTimer timer = timing->StartNewTimer("OUTPUT");
@@ -558,12 +555,7 @@ string SimulationBase::Output(void)
     // Now write name and format of snapshot to file (for restarts)
     if (rank == 0) {
 
-      fileend = "restart";
-      filename2 = run_id + "." + fileend;
-      outfile.open(filename2.c_str());
-      outfile << out_file_form << endl;
-      outfile << filename << endl;
-      outfile.close();
+      WriteRestartLog(filename);
 
       // Finally, calculate wall-clock time interval since last output snapshot
       if (tsnap_wallclock > 0.0) dt_snap_wall = timing->RunningTime() - tsnap_wallclock;
@@ -609,24 +601,50 @@ string SimulationBase::Output(void)
 void SimulationBase::RestartSnapshot(void)
 {
   string filename;                     // Temporary output snapshot filename
-  string filename2;                    // Restart log filename
-  stringstream ss;                     // Stream object for preparing filename
-  ofstream outfile;                    // Stream of restart file
+  string newfile;                      // Name of file while it is still being written
 
   debug2("[SimulationBase::RestartSnapshot]");
 
-  // Prepare filename for new snapshot
+  // Write the new snapshot next to the old one (which the restart log may still refer to) and
+  // only replace it once it is complete, so the simulation can be restarted at any time.
   filename = run_id + "." + out_file_form + ".tmp";
-  ss.str(std::string());
-  WriteSnapshotFile(filename,out_file_form);
+  newfile = filename + ".new";
+  WriteSnapshotFile(newfile, out_file_form);
+
+  if (rank == 0) {
+    if (rename(newfile.c_str(), filename.c_str()) != 0) {
+      ExceptionHandler::getIstance().raise("Error : could not write file " + filename);
+    }
+    // Now write name and format of snapshot to file (for restarts)
+    WriteRestartLog(filename);
+  }
+
+  return;
+}
 
-  // Now write name and format of snapshot to file (for restarts)
-  filename2 = run_id + ".restart";
-  outfile.open(filename2.c_str());
+
+
+//=================================================================================================
+//  SimulationBase::WriteRestartLog
+/// Write the restart log file (containing the name and format of the snapshot from which the
+/// simulation will be restarted).  The old file is replaced in one go by the new one.
+//=================================================================================================
+void SimulationBase::WriteRestartLog
+ (const string filename)               ///< [in] Name of the snapshot file
+{
+  string logfile = run_id + ".restart";
+  string newfile = logfile + ".new";
+  ofstream outfile;                    // Stream of restart file
+
+  outfile.open(newfile.c_str());
   outfile << out_file_form << endl;
   outfile << filename << endl;
   outfile.close();
 
+  if (rename(newfile.c_str(), logfile.c_str()) != 0) {
+    ExceptionHandler::getIstance().raise("Error : could not write file " + logfile);
+  }
+
   return;
 }
 
diff --git a/src/Headers/Simulation.h b/src/Headers/Simulation.h
index 84eaee4..c913b18 100644
--- a/src/Headers/Simulation.h
+++ b/src/Headers/Simulation.h
@@ -125,6 +125,7 @@ class SimulationBase
   list<SphSnapshotBase*> InteractiveRun(int=-1);
   string Output(void);
   void RestartSnapshot(void);
+  void WriteRestartLog(const string);
   void Run(int=-1);
   void SetParam(string key, string value);
   void SetParam(string key, int value);
-- 
2.43.0


From 72e85271eed42e540e776e091955b16fdd54246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 08/43] fix: restarted N-body simulations numbered their
 snapshots from the beginning again

---
 src/Nbody/NbodySimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..8f44fa2 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -188,7 +188,6 @@ void NbodySimulation<ndim>::PostInitialConditionsSetup(void)
   debug2("[NbodySimulation::PostInitialConditionsSetup]");
 
   // Set time variables here (for now)
-  Noutsnap = 0;
   nresync = 0;
   //tsnapnext = dt_snap;
 
-- 
2.43.0


From 4be64a2df38d72d66fc5e06284d2e53edd4b578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 09/43] fix: a simulation restarted before its first snapshot
 forgot the time of the first snapshot

---
 src/Common/SimulationIO.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..f77964f 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2550,9 +2550,10 @@ void Simulation<ndim>::ConvertToCodeUnits(void)
   tsnaplast     /= simunits.t.inscale;
   tlitesnaplast /= simunits.t.inscale;
   hydro->mmean  /= simunits.m.inscale;
+  // (if no snapshot has been written yet, the first one is still to come at the time already set)
   if (restart) {
-    tsnapnext = tsnaplast + dt_snap;
-    tlitesnapnext = tlitesnaplast + dt_litesnap;
+    if (Noutsnap > 0 || tsnaplast > 0.0) tsnapnext = tsnaplast + dt_snap;
+    if (Noutlitesnap > 0 || tlitesnaplast > 0.0) tlitesnapnext = tlitesnaplast + dt_litesnap;
   }
 
   return;
-- 
2.43.0


From 7c6972421e84f34c7c714a54bf60914a16a89f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 10/43] fix: interactive runs treated lite snapshots as regular
 ones

---
 src/Common/Simulation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 344110a..f24e11f 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -501,7 +501,8 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 //=================================================================================================
 string SimulationBase::Output(void)
 {
-  string filename;                  // Output snapshot filename
+  string filename;                  // Regular output snapshot filename
+  string litefilename;              // 'Lite' output snapshot filename
   string nostring;                  // String of number of snapshots
   stringstream ss;                  // Stream object for preparing filename
 
@@ -530,9 +531,9 @@ string SimulationBase::Output(void)
     nostring = "";
     ss << setfill('0') << setw(5) << Noutlitesnap;
     nostring = ss.str();
-    filename = run_id + ".slite." + nostring;
+    litefilename = run_id + ".slite." + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,"slite");
+    WriteSnapshotFile(litefilename,"slite");
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From eb2a0596618f4bd632af8259ea18d9659527de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:48 +0000
Subject: [PATCH 11/43] fix: mirror ghost construction read a neighbour through
 a dangling reference

---
 src/Headers/GhostNeighbours.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..27da0e3 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -411,7 +411,8 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  // N.B. a copy, since adding ghosts to the list can move its elements in memory
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From ebe81dbeba23460501b8f13bf3f94d305f7fbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:48 +0000
Subject: [PATCH 12/43] fix: periodic box overlap used an uninitialised shift
 along non-periodic dimensions

---
 src/Headers/GhostNeighbours.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 27da0e3..f2c918c 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -177,6 +177,7 @@ public:
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
+            dr_corr[k] = 0 ;
             if (_periodic_bound[k]) {
               if (dr[k] > _domain.half[k]) {
                 dr_corr[k] =- _domain.size[k];
@@ -186,8 +187,6 @@ public:
                 dr_corr[k] = _domain.size[k];
                 bound.set(periodic_bound_flags[k][0]) ;
               }
-              else
-                dr_corr[k] = 0 ;
             }
           }
         }
-- 
2.43.0


From 808bc48f385596a55918e6288080f3b815e55772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:48 +0000
Subject: [PATCH 13/43] fix: OctTree never set the bounding box of its root
 cell nor reset velocity boxes

---
 src/Tree/OctTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..93dff6d 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -282,6 +282,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
   for (k=0; k<ndim; k++) {
+    celldata[0].bb.min[k] = bbmin[k];
+    celldata[0].bb.max[k] = bbmax[k];
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
   }
@@ -506,6 +508,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
-- 
2.43.0


From a1f6ccd9d20a6857a5876102ef049ebede93366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:56 +0000
Subject: [PATCH 14/43] fix: OctTree could overrun its cell array and walk
 outside the particles when empty

---
 src/Tree/OctTree.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 93dff6d..1e5bae1 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,8 +109,6 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
-
     firstCell = new int[lmax];
     lastCell  = new int[lmax];
     ids       = new int[Nparticles];
@@ -121,6 +119,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
 
     Ntotmax = Nparticles;
     Ncellmax = Ncells;
+    gtot = Ntotmax;
 
   }
 
@@ -272,9 +271,11 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0] = 0;
+  lastCell[0]  = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
@@ -297,8 +298,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
@@ -306,6 +305,23 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     while (!allDone) {
       cellSize *= (FLOAT) 0.5;
 
+      // Ensure there is enough memory for all children cells on the next level
+      if (Ncell + Noctchild*Nlist > Ncellmax) {
+        const int Ncellmaxold = Ncellmax;
+        ReallocateMemory(Ntotmax, 2*(Ncell + Noctchild*Nlist));
+        for (c=0; c<Ncell; c++) {
+          if (celldata[c].cnext == Ncellmaxold) celldata[c].cnext = Ncellmax;
+        }
+        for (c=Ncellmaxold; c<Ncellmax; c++) {
+          celldata[c].N      = 0;
+          celldata[c].ifirst = -1;
+          celldata[c].ilast  = -1;
+          celldata[c].copen  = -1;
+          celldata[c].cnext  = Ncellmax;
+          celldata[c].id     = c;
+        }
+      }
+
 
       // Loop over all unfinished cells to find new child cell occupancy
       //-------------------------------------------------------------------------------------------
-- 
2.43.0


From 5509f8a72d9ab16b5800c725ea574c6c1d197d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 15/43] fix: meshless h iteration tested the old smoothing
 length for convergence

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..6156964 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (ndens > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From 53e898038995813cf507ade39be9399c529469d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 16/43] fix: gravity on stars could loop forever when most
 particles are neighbours

---
 src/Tree/HydroTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 9d6ff30..039c3ab 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -590,7 +590,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
     int Ndirect;                                 // No. of direct-sum gravity particles
     int Ngravcell;                               // No. of gravity cells
     int Nneib;                                   // No. of neighbours
-    int Nneibmax = Ntot; //Nneibmaxbuf[ithread];
+    int Nneibmax = Ntot + Nleafmax;              // (the walk needs space for a whole leaf cell)
     int Ngravcellmax = Ngravcellmaxbuf[ithread]; // ..
     FLOAT macfactor;                             // Gravity MAC factor
     int* neiblist = new int[Nneibmax];           // ..
-- 
2.43.0


From df4684970cbeff7b76b97d839f96693af6a18d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 17/43] fix: meshless particles reflected at a mirror boundary
 kept their conserved momentum

---
 src/Headers/Integration.h         |  1 +
 src/MeshlessFV/MfvIntegration.cpp | 36 +++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/Headers/Integration.h b/src/Headers/Integration.h
index 0313092..0011d9c 100644
--- a/src/Headers/Integration.h
+++ b/src/Headers/Integration.h
@@ -185,6 +185,7 @@ public:
   void CorrectionTerms(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *){};
   void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
   int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<ndim> *);
+  void CheckBoundaries(DomainBox<ndim> &, Hydrodynamics<ndim> *);
   DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *);
 
  private:
diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..0771057 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -269,6 +269,42 @@ int MfvIntegration<ndim,ParticleType>::CheckTimesteps
   return activecount;
  }
 
+//=================================================================================================
+//  MfvIntegration::CheckBoundaries
+/// Check if any particle has crossed a boundary.  A particle that is reflected by a mirror (or wall)
+/// has its velocity reversed, so its conserved momentum has to be reversed as well.
+//=================================================================================================
+template <int ndim, template <int> class ParticleType>
+void MfvIntegration<ndim,ParticleType>::CheckBoundaries
+(DomainBox<ndim> &simbox,              ///< [in] Domain box
+ Hydrodynamics<ndim> *hydro)           ///< [inout] Hydro object
+{
+  MeshlessFV<ndim>* mfv = reinterpret_cast<MeshlessFV<ndim>*>(hydro);
+  MeshlessFVParticle<ndim>* partdata = mfv->GetMeshlessFVParticleArray();
+
+  for (int i=0; i<mfv->Nhydro; i++) {
+    MeshlessFVParticle<ndim>& part = partdata[i];
+    for (int k=0; k<ndim; k++) {
+      const bool reflect =
+        (part.r[k] < simbox.min[k] && (simbox.boundary_lhs[k] == mirrorBoundary ||
+                                       simbox.boundary_lhs[k] == wallBoundary)) ||
+        (part.r[k] > simbox.max[k] && (simbox.boundary_rhs[k] == mirrorBoundary ||
+                                       simbox.boundary_rhs[k] == wallBoundary));
+      if (reflect) {
+        part.Qcons0[k] = -part.Qcons0[k];
+        part.dQ[k]     = -part.dQ[k];
+        part.dQdt[k]   = -part.dQdt[k];
+        part.rdmdt[k]  = -part.rdmdt[k];
+        part.rdmdt0[k] = -part.rdmdt0[k];
+      }
+    }
+  }
+
+  TimeIntegration<ndim>::CheckBoundaries(simbox, hydro);
+}
+
+
+
 //=================================================================================================
 //  SphLeapfrogKDK::SetActiveParticles
 /// Set or unset the active flag for all particles based upon whther the particles need a force
-- 
2.43.0


From 0e2ae43696b89acf47bb04dbad4d11b152dcfdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 18/43] fix: one search could create more sinks than Nsinkfixed

---
 src/Nbody/Sinks.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..9b17019 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -150,6 +150,9 @@ void Sinks<ndim>::SearchForNewSinkParticles
     isink = -1;
     rho_max = (FLOAT) 0.0;
 
+    // Each new sink counts towards the maximum
+    if (Nsink >= Nsinkfixed && Nsinkfixed != -1) break;
+
     // Loop over all hydro particles to find the particle with the highest
     // density that obeys all of the formation criteria, if any do.
     //---------------------------------------------------------------------------------------------
-- 
2.43.0


From acbe12d45ae3c540ef5fff287c72c92cedd7856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 19/43] fix: sink candidates receding from a sink were
 excluded, not those approaching it

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 9b17019..efb189e 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -184,7 +184,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
 
         // If sink candidate will reach another sink within the current freefall time, then
         // ignore candidate since it will likely be accreted or tidally perturbed
-        if (tff > drsqd / dvdr && dvdr > 0) sink_flag = false;
+        if (dvdr < 0 && tff > -drsqd / dvdr) sink_flag = false;
 
         // Hill sphere criterion (slightly different numerical factor from Seren implementation)
         if (part.rho < -dadr/drsqd ) sink_flag = false;
-- 
2.43.0


From 6d18a982ec17f3192ea5a88ea5b6e90394dba7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 20/43] fix: 1/h of a sink's star was unset or not that of its
 h, giving NaN accretion rates

---
 src/Hydrodynamics/SphSimulation.cpp     | 1 +
 src/MeshlessFV/MeshlessFVSimulation.cpp | 1 +
 src/Nbody/Sinks.cpp                     | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 0f6b149..9f217db 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -233,6 +233,7 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
       sinks->sink[i].star   = &(nbody->stardata[i]);
       sinks->sink[i].istar  = i;
       sinks->sink[i].radius = hydro->kernp->kernrange*nbody->stardata[i].h;
+      nbody->stardata[i].invh = (FLOAT) 1.0/nbody->stardata[i].h;
       //sinks->sink[i].radius = simparams->floatparams["sink_radius"];
     }
   }
diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 1e44d99..051474c 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -453,6 +453,7 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
       sinks->sink[i].star   = &(nbody->stardata[i]);
       sinks->sink[i].istar  = i;
       sinks->sink[i].radius = hydro->kernp->kernrange*nbody->stardata[i].h;
+      nbody->stardata[i].invh = (FLOAT) 1.0/nbody->stardata[i].h;
       //sinks->sink[i].radius = simparams->floatparams["sink_radius"];
     }
   }
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index efb189e..88ef172 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -323,7 +323,7 @@ void Sinks<ndim>::CreateNewSinkParticle
 
   // Calculate all other sink properties based on radius and SPH particle properties
   sink[Nsink].star->h            = hydro->kernp->invkernrange*sink[Nsink].radius;
-  sink[Nsink].star->invh         = (FLOAT) 1.0/part.h;
+  sink[Nsink].star->invh         = (FLOAT) 1.0/sink[Nsink].star->h;
   sink[Nsink].star->radius       = sink[Nsink].radius;
   //sink[Nsink].star->hfactor      = pow(sink[Nsink].star->invh,ndim);
   sink[Nsink].star->m            = part.m;
-- 
2.43.0


From f9fb23484ecec61dbcfc803e6af67bd88a0a6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 21/43] fix: sinks near a boundary accreted ghost copies,
 creating mass

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 88ef172..306b3a4 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -455,7 +455,7 @@ void Sinks<ndim>::AccreteMassToSinks
       for (j=0; j<Nlist; j++) {
         i = neiblist[j];
         Particle<ndim>& part = hydro->GetParticlePointer(i);
-        if (part.flags.is_dead()) continue;
+        if (part.flags.is_dead() || part.flags.is_boundary()) continue;
 
         for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
         drsqd = DotProduct(dr, dr, ndim);
-- 
2.43.0


From afd8c1fa2df4e0ff4db6a53e6c2c9fc50ebdece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 22/43] fix: a sink whose gas all belongs to another sink got a
 NaN accretion rate

---
 src/Nbody/Sinks.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 306b3a4..b997ec5 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -528,6 +528,9 @@ void Sinks<ndim>::AccreteMassToSinks
 
       }
 
+      // All of the gas inside belongs to other sinks
+      if (Nneib == 0) continue;
+
       // Sort particle ids by increasing distance from the sink
       InsertionSortIds(Nneib, ilist, rsqdlist);
 
-- 
2.43.0


From 36a913d912254127735fe5016275f2312f601880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 23/43] fix: an overflowing gather list was continued with the
 ghosts from index -1

---
 src/Tree/Tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..e7edc51 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer
+  if (Nneib == -1) return -1;
+
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From b036b8ff8936736276cdf0c2d7dacaab57cbd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 24/43] fix: ComputeH's error code -1 was taken for success,
 leaving density unset

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..991dfd5 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -229,7 +229,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphProperties
 
           // If h-computation is invalid, then break from loop and recompute
           // larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e7d1a50..b5f1c48 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -258,7 +258,7 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllProperties
           okflag = mfv->ComputeH(i, Ngather, hmax, m2, mu2, drsqd, gpot, activepart[j], nbody);
 
           // If h-computation is invalid, then break from loop and recompute larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
-- 
2.43.0


From 402f6592618aa2a7a7089997d287e393a5f69ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 25/43] fix: potential minima were judged with the previous
 neighbour's distance

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..9beffa3 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From 15c2e90f1af88ab52d03767655860be4b380a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 26/43] fix: meshless gas taken in part by a sink came back
 before the end of its step

---
 src/Headers/MeshlessFV.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..01a5d96 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -111,10 +111,9 @@ public:
   }
   virtual void AccreteMassFromParticle(const FLOAT dm, Particle<ndim> &part) {
     MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>& > (part);
+    const FLOAT frac = dm/mfvpart.Qcons0[irho];
     mfvpart.m -= dm;
-    mfvpart.dQ[irho] -= dm;
-    //mfvpart.dQ[ietot] -= dm*part.u;
-    for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
+    for (int var=0; var<ndim+2; var++) mfvpart.Qcons0[var] -= frac*mfvpart.Qcons0[var];
   }
 
   virtual void ZeroAccelerations();
-- 
2.43.0


From ea471a36dff9e69a8263bcec6eb7c8f8f5cb8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 27/43] fix: sink density threshold of meshless runs was
 converted with the wrong factor

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 051474c..a66ff54 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -328,7 +328,7 @@ void MeshlessFVSimulation<ndim>::ProcessParameters(void)
   sinks->smooth_accrete_dt   = floatparams["smooth_accrete_dt"];
   sinks->sink_radius_mode    = stringparams["sink_radius_mode"];
   sinks->rho_sink            = floatparams["rho_sink"];
-  sinks->rho_sink            /= simunits.rho.outscale/simunits.rho.outcgs;
+  sinks->rho_sink            /= (simunits.rho.outscale*simunits.rho.outcgs);
 
   if (sinks->sink_radius_mode == "fixed") {
     sinks->sink_radius = floatparams["sink_radius"]/simunits.r.outscale;
-- 
2.43.0


From 856b85f07594372d7904171a82abe242fbb7a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 28/43] fix: skip lines without '=' in the parameter file

find() returns npos (-1 as an int) if there is no '=', so such lines were not skipped as intended;
a line with nothing but the name of a parameter set it to zero (or to its own name).
---
 src/Common/Parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..6cf65b5 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -139,7 +139,7 @@ void Parameters::ParseLine
 
   // If line is not in the correct format (either equals is not present,
   // or equals is before the colon) then skip line and return.
-  if (equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
+  if (equal_pos < 0 || (colon_pos < length && colon_pos > equal_pos)) return;
 
   // Extract variable name and value from line
   std::string var_name = paramline.substr(colon_pos+1, equal_pos-colon_pos-1);
-- 
2.43.0


From 91e52c753fb41dcd651c4130a7631512d47d2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 29/43] fix: trim all white space in the parameter file, not
 only blanks

Tabs (and the carriage returns of DOS files) became part of the name or value, so that parameters
were not recognised or strings did not compare equal to any known option.
---
 src/Common/Parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 6cf65b5..523070d 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -22,6 +22,7 @@
 //=================================================================================================
 
 
+#include <cctype>
 #include <cstdio>
 #include <iostream>
 #include <fstream>
@@ -681,7 +682,7 @@ std::string Parameters::TrimWhiteSpace
 
   // Loop over all characters and ignore any white-space characters
   for (unsigned int i=0; i<instr.length(); i++) {
-    if (instr[i] != ' ') outstr += instr[i];
+    if (!isspace((unsigned char) instr[i])) outstr += instr[i];
   }
 
   return outstr;
-- 
2.43.0


From 4671b00e6cb200f5febc8db116b0248141eb7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 30/43] fix: do not round parameter values to six digits

Values set with SetParam(key,double), handed back by GetParam and written to the .param file were
rounded to six significant digits (and integer parameters given as floats of a million or more
became 1, e.g. '1e+06').
---
 src/Common/Parameters.cpp | 5 +++++
 src/Common/Simulation.cpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 523070d..62cbc0f 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -25,6 +25,7 @@
 #include <cctype>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -559,6 +560,7 @@ string Parameters::GetParameter
   }
   else if (floatparams.count(key) == 1) {
     std::stringstream value;
+    value.precision(numeric_limits<double>::digits10);
     value << floatparams[key];
     return value.str();
   }
@@ -646,6 +648,9 @@ void Parameters::RecordParametersToFile(void)
 
   outfile.open(filename.c_str());
 
+  // Record floating point values to (all but) full precision
+  outfile.precision(numeric_limits<double>::digits10);
+
   // Write all integer parameters
   std::map <std::string, int>::iterator it;
   for (it=intparams.begin(); it != intparams.end(); ++it) {
diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index f24e11f..8964d9d 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -23,6 +23,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <math.h>
@@ -333,6 +334,7 @@ void SimulationBase::SetParam
   double value)                        ///< [in] Parameter float (double) value
 {
   ostringstream convert;
+  convert.precision(numeric_limits<double>::digits10 + 2);
   convert << value;
   SetParam (key, convert.str());
 }
-- 
2.43.0


From 280286e68da04238bc0a6b777c4a8d7b2970ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 31/43] fix: use the force unit parameters finunit and foutunit

The parameters forceinunit and forceoutunit do not exist (and cannot be set).
---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..d1ebb2a 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -958,8 +958,8 @@ void SimUnits::SetupUnits(Parameters *params)
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
-- 
2.43.0


From 0bee119ed2f6a1727783b448be4044febf560272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 32/43] fix: full two-fluid dust: use the gas_eos parameter

The parameter eos does not exist, so isothermal gas was treated as if its energy were integrated.
---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..38a6b77 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1187,7 +1187,7 @@ DustBase<ndim>* ProcessParameters(Parameters* simparams, ParticleTypeRegister& t
 	  typedef DustFull<ndim, ParticleType, StoppingTime, Kernel> dust ;
 
 	  StoppingTime t_s(K_D) ; Kernel kern(KernelName) ;
-	  bool IntegrateEnergy = stringparams["eos"] != "isothermal" ;
+	  bool IntegrateEnergy = stringparams["gas_eos"] != "isothermal" ;
 
 	  typename dust::DF Forces(t_s, kern, IntegrateEnergy) ;
 	  DustSphNgbFinder<ndim, ParticleType>* d =  new dust(simparams, Forces, types, t, ghost) ;
-- 
2.43.0


From 189f8ccd8b912383882a373ddc9a7e32abe32c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 33/43] fix: formulas with the constant e, or a quantity whose
 name starts with e, could not be used

The exponent letter of numbers was also accepted as an operand, and hid every name that starts
with it (ecc); as an operand it was stored as 'E', which the evaluation does not know.
---
 analysis/formula_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/formula_parser.py b/analysis/formula_parser.py
index 904ad59..62b89d0 100644
--- a/analysis/formula_parser.py
+++ b/analysis/formula_parser.py
@@ -84,7 +84,7 @@ expop       = Literal( "^" )
 assign      = Literal( "=" )
 
 expr = Forward()
-atom = ( ( e | floatnumber | integer | ident ).setParseAction(pushFirst) |
+atom = ( ( floatnumber | integer | ident ).setParseAction(pushFirst) |
          ( lpar + expr.suppress() + rpar )
        )
 functions1arg = ['sqrt','sin','cos','tan','arcsin','arccos','arctan','log10']
-- 
2.43.0


From 520a2d191da808a56a047fb0b90ecb3aa0c00c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 34/43] fix: the second argument of a function in a formula
 could only be a single quantity or number

The tokens of the other arguments were counted one by one, and the message about their number
could not be built.
---
 analysis/formula_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analysis/formula_parser.py b/analysis/formula_parser.py
index 62b89d0..1fb18b9 100644
--- a/analysis/formula_parser.py
+++ b/analysis/formula_parser.py
@@ -56,8 +56,8 @@ def arg_number(str, loc, toks):
     
     # Check that the number is correct
     if narg != len(toks)-1:
-        raise ParseException("Error: function " + toks[0] + "takes " \
-                             + narg + "arguments, you gave "+ len(toks)-1)
+        raise ParseException("Error: function " + toks[0] + " takes " \
+                             + str(narg) + " arguments, you gave " + str(len(toks)-1))
 
 
 # Define grammar
@@ -91,7 +91,7 @@ functions1arg = ['sqrt','sin','cos','tan','arcsin','arccos','arctan','log10']
 functions2arg = ['arctan2']
 function_tokens = map(Literal,functions1arg + functions2arg)
 
-argument_list = (( Group(expr) + ZeroOrMore( Suppress( ',' ) + expr ) )).setResultsName('argumentlist')
+argument_list = (( Group(expr) + ZeroOrMore( Suppress( ',' ) + Group(expr) ) )).setResultsName('argumentlist')
 
 function = (Or(function_tokens)+lpar+argument_list+rpar).setParseAction(arg_number,pushFirst)
 
-- 
2.43.0


From 8f3b3a6ba25cf85164edcefdc1c7dbcd36eb68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 35/43] fix: numbers like 1e3 in a formula were accepted but
 could not be evaluated

---
 analysis/formula_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/formula_parser.py b/analysis/formula_parser.py
index 1fb18b9..3980cb8 100644
--- a/analysis/formula_parser.py
+++ b/analysis/formula_parser.py
@@ -140,7 +140,7 @@ def evaluateStack( s, type, snap ):
     return float(snap.sim.GetParam(op))
   elif re.search('^[-+]?[0-9]+$',op):
     return int( op )
-  elif re.search('[-+]?[0-9]+[.][0-9]*',op):
+  elif re.search('^[-+]?[0-9]+([.][0-9]*)?([eE][-+]?[0-9]+)?$',op):
     return float( op )
   else:
     raise ParseException("Unable to parse string: "  + op)
-- 
2.43.0


From 4516db381149f60417ac6edc351f12e58a51ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 36/43] fix: the quantities vR, aR, aphi and atheta were not
 what they are called

The cylindrical components vR and aR had the factor sin(theta) of the spherical ones, and the
accelerations aphi and atheta were computed from the velocities.
---
 analysis/facade.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/analysis/facade.py b/analysis/facade.py
index 23e1162..155f6bb 100644
--- a/analysis/facade.py
+++ b/analysis/facade.py
@@ -1161,14 +1161,14 @@ def init():
     CreateUserQuantity('phi','arctan2(y,x)', label='$\\phi$')
     CreateUserQuantity('theta','arccos(z/r)', label='$\\theta$')
     CreateUserQuantity('vr','sin(theta)*cos(phi)*vx+sin(theta)*sin(phi)*vy+cos(theta)*vz',scaling_factor='v',label='$v_r$')
-    CreateUserQuantity('vR','sin(theta)*cos(phi)*vx+sin(theta)*sin(phi)*vy',scaling_factor='v',label='$v_R$')
+    CreateUserQuantity('vR','cos(phi)*vx+sin(phi)*vy',scaling_factor='v',label='$v_R$')
     CreateUserQuantity('vR2d','cos(phi)*vx+sin(phi)*vy',scaling_factor='v',label='$v_R$')
     CreateUserQuantity('vphi','cos(phi)*vy-sin(phi)*vx',scaling_factor='v',label='$v_\\phi$')
     CreateUserQuantity('vtheta','cos(theta)*cos(phi)*vx+cos(theta)*sin(phi)*vy-sin(theta)*vz',scaling_factor='v', label='$v_\\theta$')
     CreateUserQuantity('ar','sin(theta)*cos(phi)*ax+sin(theta)*sin(phi)*ay+cos(theta)*az',scaling_factor='a',label='$a_r$')
-    CreateUserQuantity('aR','sin(theta)*cos(phi)*ax+sin(theta)*sin(phi)*ay',scaling_factor='a',label='$a_R$')
-    CreateUserQuantity('aphi','cos(phi)*vy-sin(phi)*vx',scaling_factor='a',label='$a_\\phi$')
-    CreateUserQuantity('atheta','cos(theta)*cos(phi)*vx+cos(theta)*sin(phi)*vy-sin(theta)*vz',scaling_factor='a', label='$a_\\theta$')
+    CreateUserQuantity('aR','cos(phi)*ax+sin(phi)*ay',scaling_factor='a',label='$a_R$')
+    CreateUserQuantity('aphi','cos(phi)*ay-sin(phi)*ax',scaling_factor='a',label='$a_\\phi$')
+    CreateUserQuantity('atheta','cos(theta)*cos(phi)*ax+cos(theta)*sin(phi)*ay-sin(theta)*az',scaling_factor='a', label='$a_\\theta$')
     CreateUserQuantity('press','(gamma_eos - 1)*rho*u',scaling_factor='press',label='$P$')
     CreateUserQuantity('sound','sqrt(gamma_eos*(gamma_eos - 1)*u)',scaling_factor='v', label='$c_s$')
     CreateUserQuantity('temp','(gamma_eos - 1)*u*mu_bar',scaling_factor='temp',label='T')
-- 
2.43.0


From 58a65caedf2fff1fe5c27c687d40cd2d42431d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 37/43] fix: data of a snapshot that has been removed from the
 buffer could not be fetched

e.g. in time derivatives, where reading the next snapshot may remove the previous one.
---
 analysis/data_fetcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analysis/data_fetcher.py b/analysis/data_fetcher.py
index 7334cd3..ec2f0c2 100644
--- a/analysis/data_fetcher.py
+++ b/analysis/data_fetcher.py
@@ -195,6 +195,10 @@ class DirectDataFetcher:
         if kind != "direct":
             raise Exception ("Error: the quantity" + quantity + " is not a direct quantity!")
         
+        # The snapshot may have been removed from the buffer since it was handed out
+        if not snap.allocated:
+            SimBuffer._fillsnapshot(snap)
+        
         returned = snap.ExtractArray(self._quantity, type, unit) + [self.quantitylabels[self._quantity]]
         
         if self._quantity=='iorig':
-- 
2.43.0


From 62909bae43fecbf92b3e47bf4d4fbde99fb9e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 38/43] fix: a snapshot that does not fit beside the live ones
 emptied the buffer before it was refused

The check that a snapshot fits at all left out the live snapshots, which are never removed.
---
 analysis/SimBuffer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/analysis/SimBuffer.py b/analysis/SimBuffer.py
index 13f3993..71cdc00 100644
--- a/analysis/SimBuffer.py
+++ b/analysis/SimBuffer.py
@@ -82,7 +82,7 @@ this reason, all of its methods are static.
         BufferFull if there isn\'t enough space for the snapshot being loaded. 
         '''
         snapshotsize = snapshot.CalculatePredictedMemoryUsage()
-        if snapshotsize > SimBuffer.maxmemory:
+        if snapshotsize > SimBuffer.maxmemory - SimBuffer.live_memory_usage():
             raise BufferFull("The requested snapshot can't fit inside the buffer memory")
         while 1:
             usedmemory = SimBuffer.total_memory_usage()
@@ -273,12 +273,21 @@ this reason, all of its methods are static.
         total_memory = 0
         for snapshot in SimBuffer.snapshots:
             total_memory += snapshot.CalculateMemoryUsage()
+        return total_memory + SimBuffer.live_memory_usage()
+
+
+    #--------------------------------------------------------------------------
+    @staticmethod  
+    def live_memory_usage():
+        '''Returns the memory usage of the live snapshots (in bytes), which can
+        not be deallocated.'''
+        live_memory = 0
         for sim in SimBuffer.simlist:
             try:
-                total_memory += sim.live.CalculateMemoryUsage()
+                live_memory += sim.live.CalculateMemoryUsage()
             except AttributeError:
                 pass
-        return total_memory
+        return live_memory
 
 
     #--------------------------------------------------------------------------
-- 
2.43.0


From 93f9d07a6ced400721ccf1ea5f5aab8303180603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 39/43] fix: a simulation without snapshots that could not be
 loaded stayed selected

The failed simulation became the current one, without a snapshot to go on from.
---
 analysis/SimBuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/SimBuffer.py b/analysis/SimBuffer.py
index 71cdc00..91f7856 100644
--- a/analysis/SimBuffer.py
+++ b/analysis/SimBuffer.py
@@ -210,10 +210,11 @@ this reason, all of its methods are static.
         
         # Construct the simulation object and initialize it
         sim = SimulationBase.SimulationFactory(ndim, simtype, parameters);
-        SimBuffer._add_simulation(sim)
         sim.ProcessParameters()
         
+        # Only add (and select) the simulation once its snapshots have been found
         SimBuffer.load_snapshots(sim,buffer_flag)
+        SimBuffer._add_simulation(sim)
         
         
     @staticmethod
-- 
2.43.0


From 50769ea4cc91cc03fb3eed8437d45d995471c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 40/43] fix: lagrangian_radii asked for the masses in the unit
 of the radius

---
 analysis/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/compute.py b/analysis/compute.py
index 2597161..d58fcf1 100644
--- a/analysis/compute.py
+++ b/analysis/compute.py
@@ -149,7 +149,7 @@ def L1errornorm(ic, x=None, y=None, xmin=None, xmax=None, normalise=None,
 def lagrangian_radii(snap, mfrac=0.5, type="default", unit="default"):
     '''Computes the Lagrangian radii from all particles in simulation'''
     runitinfo, r, rscaling_factor, rlabel = UserQuantity('r').fetch(type, snap, unit)
-    m = UserQuantity('m').fetch(type, snap, unit)[1]
+    m = UserQuantity('m').fetch(type, snap)[1]
 
     # Find particle ids in order of increasing radial distance
     porder      = np.argsort(r)
-- 
2.43.0


From ddba9bbe915bf1c0232b764d65cd28146c31bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 41/43] fix: lagrangian_radii averaged with the outermost
 particle if the innermost has enough mass

---
 analysis/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/compute.py b/analysis/compute.py
index d58fcf1..e6860c5 100644
--- a/analysis/compute.py
+++ b/analysis/compute.py
@@ -158,7 +158,7 @@ def lagrangian_radii(snap, mfrac=0.5, type="default", unit="default"):
     mtotal      = mcumulative[-1]
     mlag        = mfrac*mtotal
     index       = np.searchsorted(mcumulative,mlag)
-    lag_radius  = 0.5*(r[porder[index-1]] + r[porder[index]])
+    lag_radius  = 0.5*(r[porder[max(index-1,0)]] + r[porder[index]])
     return runitinfo, lag_radius, rscaling_factor, 'lag_radius_' + str(mfrac)
 
 
-- 
2.43.0


From 5138e997010e167f9264488d397dc876da556c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 42/43] fix: the quantity dudt could not be fetched

---
 analysis/data_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/data_fetcher.py b/analysis/data_fetcher.py
index ec2f0c2..c75903f 100644
--- a/analysis/data_fetcher.py
+++ b/analysis/data_fetcher.py
@@ -173,7 +173,7 @@ class DirectDataFetcher:
     quantitylabels = {'iorig': '', 'x': 'x', 'y': 'y', 'z': 'z', 'rho': '$\\rho$',
                       'vx': '$v_x$', 'vy': '$v_y$', 'vz': '$v_z$', 
                       'ax': '$a_x$', 'ay': '$a_y$', 'az': '$a_z$',
-                      'm': 'm', 'h': 'h', 'u': 'u', 't': 't',
+                      'm': 'm', 'h': 'h', 'u': 'u', 'dudt': 'du/dt', 't': 't',
                       'sma': 'Semi-major axis', 'ecc': 'Orbital eccentricity',
                       'mbin': 'Binary mass',
                       'period': 'Orbital period', 'qbin': 'Mass ratio',
-- 
2.43.0


From 975c070221710b7002a5b1d76166a5d687fdd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 43/43] fix: an array that a snapshot does not have was handed
 out as a null pointer with a size

---
 src/Common/SphSnapshot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index aa61fcf..1afeb79 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -523,7 +523,9 @@ UnitInfo SphSnapshotBase::ExtractArray
     ExceptionHandler::getIstance().raise(message);
   }
 
-  *out_array=&(data[type].values[name][0]);
+  // Pass a pointer to the array, if the snapshot has it
+  Species& species = data[type];
+  if (species.N > 0 && species.values.count(name) > 0) *out_array=&(species.values[name][0]);
 
   // If array type and name is valid, pass pointer to array and also set unit
   if (name == "x") {
@@ -597,7 +599,7 @@ UnitInfo SphSnapshotBase::ExtractArray
 
 
   // Check that we did not get a NULL
-  if (out_array == NULL) {
+  if (*out_array == NULL && species.N > 0) {
     string message;
     if (type == "star" && (name == "rho" || name == "u" || name == "dudt"))
       message = "Error: for stars, you cannot request the array " + name;
-- 
2.43.0

