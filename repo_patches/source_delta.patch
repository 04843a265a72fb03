From 2581d0b5b96c8a400e119a6eecad5d71182820ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 01/15] fix: never return 0.0 as a random number on the open
 interval (0,1)

---
 c++/src/random.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/c++/src/random.cpp b/c++/src/random.cpp
index cfa8ecd..115eb71 100644
--- a/c++/src/random.cpp
+++ b/c++/src/random.cpp
@@ -128,7 +128,7 @@ void seedRandom(const bool time_seed, int seed)
 
 // -----------------------------------------------------------------------------
 //
-double randomDouble01()
+static double randomDoubleClosedOpen()
 {
     switch (rng_type__)
     {
@@ -155,3 +155,17 @@ double randomDouble01()
     }
 }
 
+
+// -----------------------------------------------------------------------------
+//
+double randomDouble01()
+{
+    // The canonical numbers are drawn from [0,1). Redraw to exclude the zero.
+    double rnd = randomDoubleClosedOpen();
+    while (rnd <= 0.0)
+    {
+        rnd = randomDoubleClosedOpen();
+    }
+    return rnd;
+}
+
-- 
2.43.0


From 95fdcfbba14ed617ce007ec7d52bde124e0fe559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 02/15] fix: leave no residual total rate when the last site is
 removed

The incrementally updated total rate kept a rounding residue, such that a
process with no available site could be picked.
---
 c++/src/customrateprocess.cpp | 5 +++++
 c++/src/process.cpp           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..68a54c0 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -98,6 +98,11 @@ void CustomRateProcess::removeSite(const int index)
 
     site_multiplicity_.pop_back();
 
+    // Do not leave a rounding residue as the rate of a process without sites.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..bff98ca 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -133,6 +133,11 @@ void Process::removeSite(const int index)
     total_rate_ -= site_multiplicity_.back() * rate_;
     site_multiplicity_.pop_back();
 
+    // Do not leave a rounding residue as the rate of a process without sites.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
 }
 
 
-- 
2.43.0


From fe54cc0bca6f1bc51b0665f8256033fd00da1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 03/15] fix: check for the end of the match list before
 dereferencing

---
 c++/src/hash.cpp    | 2 +-
 c++/src/matcher.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..26adc85 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -131,7 +131,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..cadcd57 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -540,7 +540,7 @@ double Matcher::updateSingleRate(const int index,
     const double cutoff = process.cutoff();
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         ++it1;
         ++len;
-- 
2.43.0


From 84c0fa7062b6de08f5f2d75cbd4b4d6585a88e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 04/15] fix: size the shared cell index buffer for the lattice
 map using it

---
 c++/src/latticemap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..362d02e 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -199,6 +199,9 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
     const int tmp2 = tmp1 * repetitions_[2] + k;
     const int tmp3 = tmp2 * n_basis_;
 
+    // The return buffer is shared between lattice maps of different basis size.
+    tmp_cell_indices__.resize(n_basis_);
+
     for (int l = 0; l < n_basis_; ++l)
     {
         tmp_cell_indices__[l] = tmp3 + l;
-- 
2.43.0


From 41d778926249418e930e963be0d685b2f65159b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 05/15] fix: do not read the first element of sites that are
 empty

Bucket sites can be set up empty, or be emptied by a process.
---
 c++/src/configuration.cpp | 14 +++++++++++---
 c++/src/matcher.cpp       |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..6fcebb1 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -24,6 +24,14 @@
 static ConfigBucketMatchList tmp_match_list__(0);
 
 
+// -----------------------------------------------------------------------------
+// The first type in a list of elements, or an empty string for an empty site.
+static std::string firstElement(const std::vector<std::string> & elements)
+{
+    return elements.empty() ? std::string() : elements[0];
+}
+
+
 // -----------------------------------------------------------------------------
 //
 Configuration::Configuration(const std::vector<std::vector<double> >  & coordinates,
@@ -53,7 +61,7 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        atom_id_elements_[i] = firstElement(elements_[i]);
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -347,7 +355,7 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                atom_id_elements_[atom_id] = firstElement(elements_[index]);
             }
 
             // Mark this index as affected.
@@ -397,7 +405,7 @@ void Configuration::performBucketProcess(Process & process,
         // ML: FIXME: This behavior should be deprecated.
         // See above comment.
         // Update the element type of this atom ID.
-        atom_id_elements_[id] = elements_[index][0];
+        atom_id_elements_[id] = firstElement(elements_[index]);
 
     }
 }
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cadcd57..880ce8c 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -564,7 +564,7 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        types_before[i] = elements[idx].empty() ? std::string() : elements[idx][0];
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From 357fed561fff56657ccb6f835bc8dfae2a19d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 06/15] fix: reject malformed tuples in a list of bucket types

The check let any tuple of length two through.
---
 python/src/KMCLib/Utilities/CheckUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..ca40d47 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -305,7 +305,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
+                if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
                 normalised_type.append(tt)
             else:
-- 
2.43.0


From 27c1e3955b224217750cbaca74ecfc0ad925e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 07/15] fix: write lattice trajectories for lattices with a
 single site

---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 3e8225d9bbbc977005f133827d389e3dfb298798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 08/15] fix: call the documented setup function of the breaker
 plugins

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..4343825 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -195,6 +195,13 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breaker objects.
+        for b in breakers:
+            step = 0
+            b.setup(step,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From 3610929e7c006ef812b15b60b62a8786df279d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 09/15] fix: count the dump time intervals from the start time
 of the run

A second run of the same model dumped every step until the intervals
counted from zero had caught up with the simulation time.
---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 4343825..f801f78 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -172,7 +172,8 @@ must be given as string."""
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
-        last_time = self.__cpp_timer.simulationTime()
+        start_time = self.__cpp_timer.simulationTime()
+        last_time  = start_time
         if use_trajectory:
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
@@ -231,7 +232,7 @@ must be given as string."""
                 # Check if it is time to dump the previous step to the equidistant trajectory.
                 if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
                     time_step += 1
-                    sample_time = time_step * dump_time
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
                     last_time = sample_time
 
-- 
2.43.0


From 329bffa952362b6dc55ecec8380255f2a06f7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 10/15] fix: check the update information of bucket processes

Updates of the wrong length, or with types not in the configuration, were
passed on to the backend where they were accessed out of bounds.
---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..f622385 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -59,6 +59,9 @@ class KMCBucketProcess(KMCBaseProcess):
         # Check the update information.
         self.__update = self.__checkUpdateInfo(update)
 
+        if not len(self.__update) == len(coordinates):
+            raise Error("The 'update' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
+
         # Construct elements before based on the match and update.
         self._elements_before = self.__minimum_match
 
@@ -74,6 +77,10 @@ class KMCBucketProcess(KMCBaseProcess):
                     elif isinstance(ee, tuple):
                         all_types.append(ee[1])
 
+        # Include the types introduced by the update.
+        for entry in self.__update:
+            all_types.extend([e[1] for e in entry if isinstance(e, tuple)])
+
         # Remove doublets and store on the class.
         self._all_present_types = list(set(all_types))
 
-- 
2.43.0


From 37da493f40763b82fd79f9a788143b956eb83b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 11/15] fix: ProcessStatistics normalises the spatial data with
 the total time

The number of events per site was divided by the time at which the last
interval was closed, not by the time between setup and the last
registered step.
---
 python/src/KMCLib/Analysis/ProcessStatistics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 3fd3f67..8f70c3a 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -59,6 +59,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         # Set the initial time.
         self.__last_time = time
+        self.__start_time = time
+        self.__current_time = time
 
         # Allocate space for the spatially resolved information.
         if self.__spatially_resolved:
@@ -68,6 +70,9 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         Recieves the register step call from the main loop.
         """
+        # Keep track of the total time.
+        self.__current_time = time
+
         # Check if the time_intervall has passed since last block finalization.
         if (time - self.__last_time) > self.__time_interval:
 
@@ -88,8 +93,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         Recieves the finalize call after the MC loop.
         """
         if self.__spatially_resolved:
-            # Normalize the spatial data with time.
-            self.__spatial_data /= self.__last_time
+            # Normalize the spatial data with the total time.
+            self.__spatial_data /= (self.__current_time - self.__start_time)
 
     def printResults(self, stream=sys.stdout):
         """
-- 
2.43.0


From d8b4a1240ffcb07b272a5791dad2d518141e7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 12/15] fix: a copy of Interactions refers to its own processes

The implicitly generated copy kept the process pointers of the original, so
that all lattice models set up from the same interactions object worked on
the same lists of available sites.
---
 c++/src/interactions.cpp | 27 +++++++++++++++++++++++++++
 c++/src/interactions.h   |  5 +++++
 2 files changed, 32 insertions(+)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..a2a1640 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -83,6 +83,33 @@ Interactions::Interactions(const std::vector<CustomRateProcess> & processes,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+Interactions::Interactions(const Interactions & other) :
+    processes_(other.processes_),
+    custom_rate_processes_(other.custom_rate_processes_),
+    process_pointers_(other.process_pointers_.size(), NULL),
+    probability_table_(other.probability_table_),
+    implicit_wildcards_(other.implicit_wildcards_),
+    use_custom_rates_(other.use_custom_rates_),
+    rate_calculator_placeholder_(RateCalculator()),
+    rate_calculator_(other.use_custom_rates_ ? other.rate_calculator_ : rate_calculator_placeholder_)
+{
+    // Point the process pointers to the copied processes.
+    for (size_t i = 0; i < processes_.size(); ++i)
+    {
+        process_pointers_[i] = &processes_[i];
+    }
+
+    for (size_t i = 0; i < custom_rate_processes_.size(); ++i)
+    {
+        process_pointers_[i] = &custom_rate_processes_[i];
+    }
+
+    // DONE
+}
+
+
 // -----------------------------------------------------------------------------
 //
 int Interactions::maxRange() const
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index e6bc987..b8ebb5f 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -49,6 +49,11 @@ public:
                  const bool implicit_wildcards,
                  const RateCalculator & rate_calculator);
 
+    /*! \brief Copy constructor. The copy refers to its own copies of the processes.
+     *  \param other: The interactions object to copy.
+     */
+    Interactions(const Interactions & other);
+
     /*! \brief Get the max range of all processes.
      *  \return : The max range in shells.
      */
-- 
2.43.0


From 83efb446b5c4aa93a5763f740744276e1ccb009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 13/15] fix: the multiplicity does not overflow for large
 occupations

---
 c++/src/matchlist.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..1e10d89 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -147,7 +147,8 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    // Floating point numbers to not overflow for large occupations.
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -175,14 +176,14 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                         // Calculate n! / (r!(n-r)!)
 
                         // Get the numerator.
-                        int local_n = t2[i];
+                        double local_n = t2[i];
                         for (int j = t2[i] - 1; j > max; --j)
                         {
                             local_n *= j;
                         }
 
                         // Calculate the denominator.
-                        int local_r = min;
+                        double local_r = min;
                         for (int j = min-1; j > 0; --j)
                         {
                             local_r *= j;
@@ -197,5 +198,5 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From 50c61c689445998b783e479edd2fa9a786bfbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 14/15] fix: a local configuration is set up again for other
 possible types

The stored backend object holds type numbers, so it is only valid for the
possible types it was generated with.
---
 python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..d597d41 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -76,6 +76,7 @@ class KMCLocalConfiguration(object):
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
+        self.__backend_possible_types = None
 
     def coordinates(self):
         """
@@ -102,7 +103,8 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The types in the backend object depend on the possible types.
+        if self.__backend is None or self.__backend_possible_types != possible_types:
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
@@ -114,6 +116,7 @@ class KMCLocalConfiguration(object):
             self.__backend = Backend.Configuration(cpp_coords,
                                                    cpp_types,
                                                    cpp_possible_types)
+            self.__backend_possible_types = dict(possible_types)
 
         # Return the backend.
         return self.__backend
-- 
2.43.0


From 8d0906238ff2012c704e3efd28bf3c1c7c2a85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 15/15] fix: the interactions are set up again for another
 configuration

The stored backend object was returned for any configuration, also if it has
other possible types, another basis, or if a custom rate calculator was
constructed with the first configuration.
---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..16ec9d1 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -57,9 +57,11 @@ class KMCInteractions(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__backend_input = None
 
         # Set the rate calculator.
         self.__rate_calculator = None
+        self.__used_rate_calculators = []
         self.__rate_calculator_class = None
         self.__builtin_custom = False
 
@@ -156,7 +158,9 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The stored backend is only valid for the input it was generated with.
+        backend_input = (dict(possible_types), n_basis, configuration)
+        if self.__backend is None or self.__backend_input != backend_input:
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -189,6 +193,8 @@ the KMCRateCalculatorPlugin class itself. """
                         raise Error(msg)
                 # Tests passed. Save the instantiated rate calculator on the class.
                 self.__rate_calculator = rate_calculator
+                # Keep it alive as long as any backend object can refer to it.
+                self.__used_rate_calculators.append(rate_calculator)
 
                 # Generate the process vector.
                 cpp_processes = Backend.StdVectorCustomRateProcess()
@@ -269,6 +275,8 @@ the KMCRateCalculatorPlugin class itself. """
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards)
 
+            self.__backend_input = backend_input
+
         # Return the stored backend.
         return self.__backend
 
-- 
2.43.0

