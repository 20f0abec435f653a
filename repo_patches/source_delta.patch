From dc7b3445e15c047e26c033d535c3d991fb1692b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 01/43] fix: reject a random number of exactly zero when
 propagating the time

The isinf() test on the time step is optimized away with -ffast-math, so a
draw of 0.0 made the simulation time infinite.
---
 c++/src/simulationtimer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c++/src/simulationtimer.cpp b/c++/src/simulationtimer.cpp
index 0249397..1cf6e9c 100644
--- a/c++/src/simulationtimer.cpp
+++ b/c++/src/simulationtimer.cpp
@@ -28,13 +28,14 @@ SimulationTimer::SimulationTimer() :
 void SimulationTimer::propagateTime(const double total_rate)
 {
     // Propagate the time of the system.
+    // NOTE: A random number of zero must be rejected to keep the time finite.
+    //       It can not be detected with std::isinf on the time step, since
+    //       that test is optimized away when compiling with -ffast-math.
     double rnd;
-    double dt;
     do
     {
         rnd = randomDouble01();
-        dt  = -std::log(rnd)/total_rate;
     }
-    while (std::isinf(dt));
-    simulation_time_ += dt;
+    while (!(rnd > 0.0));
+    simulation_time_ += -std::log(rnd)/total_rate;
 }
-- 
2.43.0


From 86698d008ac7eb89f3a05d48291f7ffcb567ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 02/43] fix: never pick a process without available sites or a
 site with zero rate

With a random number of exactly zero the lower bound search picked the first
process in the table also if it had no available sites, and crashed.
---
 c++/src/interactions.cpp | 53 +++++++++++++++++-----------------------
 c++/src/process.cpp      |  6 ++---
 2 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..a4d7a08 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -20,23 +20,6 @@
 #include "matchlist.h"
 
 
-// -----------------------------------------------------------------------------
-// Function for comparing two entries in the probability list.
-bool pairComp(const std::pair<double,int> & p1,
-              const std::pair<double, int> & p2)
-{
-    // This skips all processes with no available sites.
-    if (p2.second == 0)
-    {
-        return false;
-    }
-    else
-    {
-        return (p1.first < p2.first);
-    }
-}
-
-
 // -----------------------------------------------------------------------------
 //
 Interactions::Interactions(const std::vector<Process> & processes,
@@ -237,20 +220,28 @@ int Interactions::pickProcessIndex() const
 
     // Get a random number between 0.0 and the total imcremented rate.
     const double rnd = randomDouble01() * totalRate();
-    const std::pair<double,int> rnd_pair(rnd,1);
-
-    // Find the lower bound - corresponding to the first element for which
-    // the accumulated rate is not smaller than rnd, and the number
-    // of available processes is larger than zero.
-    const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
-    const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::lower_bound( begin,
-                                                                                         end,
-                                                                                         rnd_pair,
-                                                                                         pairComp );
-
-    // Find the index in the process list.
-    return it1-begin;
+
+    // Find the first process with available sites for which the accumulated
+    // rate is larger than rnd. Fall back on the last process with available
+    // sites, should rnd be rounded up to the total rate.
+    int index = 0;
+    for (size_t i = 0; i < probability_table_.size(); ++i)
+    {
+        // Skip all processes with no available sites.
+        if (probability_table_[i].second == 0)
+        {
+            continue;
+        }
+
+        index = static_cast<int>(i);
+        if (rnd < probability_table_[i].first)
+        {
+            break;
+        }
+    }
+
+    // Return the index in the process list.
+    return index;
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..81a7291 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -166,10 +166,10 @@ int Process::pickSite() const
     // Pick the site.
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
-    const std::vector<double>::const_iterator it1   = std::lower_bound( begin, end, rnd);
+    const std::vector<double>::const_iterator it1   = std::upper_bound( begin, end, rnd);
 
-    // Get the site index.
-    const int site_index = it1-begin;
+    // Get the site index, where rnd could be rounded up to the total rate.
+    const int site_index = (it1 == end) ? sites_.size() - 1 : it1-begin;
 
     // Return the site.
     return sites_[site_index];
-- 
2.43.0


From 1224e25ceeae9768e17dc39a201a3bb87b30c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 03/43] fix: keep rounding errors out of the total rate of a
 process

Adding and subtracting custom rates of very different magnitude could leave a
total rate of zero, or a wrong one, for a process with available sites.
---
 c++/src/customrateprocess.cpp | 19 +++++++++++++++++++
 c++/src/customrateprocess.h   |  4 ++++
 c++/src/interactions.cpp      |  1 +
 c++/src/process.cpp           |  6 ++++++
 c++/src/process.h             |  5 +++++
 5 files changed, 35 insertions(+)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..daf0671 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -98,6 +98,25 @@ void CustomRateProcess::removeSite(const int index)
 
     site_multiplicity_.pop_back();
 
+    // No rounding errors may remain on an empty list.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
+}
+
+
+// -----------------------------------------------------------------------------
+//
+void CustomRateProcess::updateTotalRate()
+{
+    // Sum the rates of all sites.
+    double total_rate = 0.0;
+    for (size_t i = 0; i < site_rates_.size(); ++i)
+    {
+        total_rate += site_rates_[i] * site_multiplicity_[i];
+    }
+    total_rate_ = total_rate;
 }
 
 
diff --git a/c++/src/customrateprocess.h b/c++/src/customrateprocess.h
index 9617b89..acdcf3c 100644
--- a/c++/src/customrateprocess.h
+++ b/c++/src/customrateprocess.h
@@ -80,6 +80,10 @@ public:
      */
     virtual void updateRateTable();
 
+    /*! \brief Re-sum the total rate over the rates of the available sites.
+     */
+    virtual void updateTotalRate();
+
 protected:
 
 private:
diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index a4d7a08..92e461d 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -196,6 +196,7 @@ void Interactions::updateProbabilityTable()
     for ( ; it1 != end; ++it1, ++it2 )
     {
         // Find out its total probability.
+        (**it1).updateTotalRate();
         const int n_sites = (**it1).nSites();
         const double total_rate = (**it1).totalRate();
         // Store the probability with the process number in a table.
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 81a7291..2b775ac 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -133,6 +133,12 @@ void Process::removeSite(const int index)
     total_rate_ -= site_multiplicity_.back() * rate_;
     site_multiplicity_.pop_back();
 
+    // No rounding errors may remain on an empty list.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
+
 }
 
 
diff --git a/c++/src/process.h b/c++/src/process.h
index 03823c3..2b6c3a9 100644
--- a/c++/src/process.h
+++ b/c++/src/process.h
@@ -95,6 +95,11 @@ public:
      */
     virtual void updateRateTable();
 
+    /*! \brief Re-sum the total rate over the available sites where
+     *         adding and removing sites can accumulate rounding errors.
+     */
+    virtual void updateTotalRate() {}
+
     /*! \brief Returns true if the process rates can be cached.
      *  \return : True if rates can be cached. False if no caching is allowed.
      */
-- 
2.43.0


From 655cc7ba03548d05d941ac963853a0c4151c2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 04/43] fix: include all sites within the process coordinates
 and cutoff in the match lists

With more than one basis point the range in cells depends on the basis site a
process is centered at. Processes reaching in the positive direction from a
basis site inside the cell never matched, and neighbours within the cutoff were
left out of the geometry sent to the rate calculator.
---
 c++/src/latticemodel.cpp | 69 ++++++++++++++++++++++++++++++++++++++--
 c++/src/latticemodel.h   | 11 +++++++
 2 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index 2a2e4e2..f4e918e 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -17,6 +17,8 @@
 #include "random.h"
 
 #include <cstdio>
+#include <cmath>
+#include <algorithm>
 
 // -----------------------------------------------------------------------------
 //
@@ -43,7 +45,8 @@ LatticeModel::LatticeModel(Configuration & configuration,
 void LatticeModel::calculateInitialMatching()
 {
     // Calculate the match lists.
-    configuration_.initMatchLists(lattice_map_, interactions_.maxRange());
+    match_range_ = calculateMatchRange();
+    configuration_.initMatchLists(lattice_map_, match_range_);
 
     // Update the interactions matchlists.
     interactions_.clearMatching();
@@ -64,6 +67,68 @@ void LatticeModel::calculateInitialMatching()
                                indices);
 }
 
+// -----------------------------------------------------------------------------
+//
+int LatticeModel::calculateMatchRange() const
+{
+    const double epsilon = 1.0e-5;
+    const int max_range  = interactions_.maxRange();
+    const std::vector<Coordinate> & basis = configuration_.coordinates();
+
+    // The range of a process depends on the position in the cell of the basis
+    // site where it is centered.
+    double range = max_range;
+    for (size_t i = 0; i < interactions_.processes().size(); ++i)
+    {
+        const Process & process = (*interactions_.processes()[i]);
+        const ProcessBucketMatchList & match_list = process.processMatchList();
+
+        for (size_t j = 0; j < process.basisSites().size(); ++j)
+        {
+            const Coordinate & origin = basis[process.basisSites()[j]];
+
+            // All sites in the process.
+            for (size_t k = 0; k < match_list.size(); ++k)
+            {
+                const Coordinate c = match_list[k].coordinate + origin;
+                range = std::max(range, std::fabs(std::floor(c.x() + epsilon)));
+                range = std::max(range, std::fabs(std::floor(c.y() + epsilon)));
+                range = std::max(range, std::fabs(std::floor(c.z() + epsilon)));
+            }
+
+            // All sites within the cutoff of the custom rates.
+            if (interactions_.useCustomRates())
+            {
+                for (int k = 0; k < lattice_map_.nBasis(); ++k)
+                {
+                    const Coordinate c = basis[k] - origin;
+                    const double reach = process.cutoff() + epsilon;
+                    range = std::max(range, std::floor(reach + std::fabs(c.x())));
+                    range = std::max(range, std::floor(reach + std::fabs(c.y())));
+                    range = std::max(range, std::floor(reach + std::fabs(c.z())));
+                }
+            }
+        }
+    }
+
+    // Do not extend the range such that a cell becomes its own neighbour.
+    int limit = static_cast<int>(range);
+    if (lattice_map_.periodicA())
+    {
+        limit = std::min(limit, (lattice_map_.repetitionsA() - 1) / 2);
+    }
+    if (lattice_map_.periodicB())
+    {
+        limit = std::min(limit, (lattice_map_.repetitionsB() - 1) / 2);
+    }
+    if (lattice_map_.periodicC())
+    {
+        limit = std::min(limit, (lattice_map_.repetitionsC() - 1) / 2);
+    }
+    return std::max(max_range, limit);
+}
+
+
 // -----------------------------------------------------------------------------
 //
 void LatticeModel::propagateTime()
@@ -87,7 +152,7 @@ void LatticeModel::singleStep()
 
     // Run the re-matching of the affected sites and their neighbours.
     const std::vector<int> & indices = \
-        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.maxRange());
+        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), match_range_);
 
     matcher_.calculateMatching(interactions_,
                                configuration_,
diff --git a/c++/src/latticemodel.h b/c++/src/latticemodel.h
index f33a0fc..c010219 100644
--- a/c++/src/latticemodel.h
+++ b/c++/src/latticemodel.h
@@ -75,6 +75,17 @@ private:
      */
     void calculateInitialMatching();
 
+    /*! \brief Private helper function to calculate the number of neighbour
+     *         cells needed around each cell, for including all sites in
+     *         the process coordinates and within the custom rate cutoffs,
+     *         seen from each basis site where the processes apply.
+     *  \return : The range to use for setting up match lists.
+     */
+    int calculateMatchRange() const;
+
+    /// The number of neighbour cells to include in the match lists.
+    int match_range_;
+
     /// A reference to the configuration given at construction.
     Configuration & configuration_;
 
-- 
2.43.0


From d162d120ee099ba736ca9a28dc57ff156d7b3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 05/43] fix: do not read the first element of an empty site

A bucket configuration with an empty site crashed.
---
 c++/src/configuration.cpp | 14 +++++++++++---
 c++/src/configuration.h   |  6 ++++++
 c++/src/matcher.cpp       |  4 +---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..0f4722b 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -53,7 +53,7 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        atom_id_elements_[i] = firstElement(i);
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -347,7 +347,7 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                atom_id_elements_[atom_id] = firstElement(index);
             }
 
             // Mark this index as affected.
@@ -397,12 +397,20 @@ void Configuration::performBucketProcess(Process & process,
         // ML: FIXME: This behavior should be deprecated.
         // See above comment.
         // Update the element type of this atom ID.
-        atom_id_elements_[id] = elements_[index][0];
+        atom_id_elements_[id] = firstElement(index);
 
     }
 }
 
 
+// -----------------------------------------------------------------------------
+//
+std::string Configuration::firstElement(const int index) const
+{
+    return elements_[index].empty() ? std::string("*") : elements_[index][0];
+}
+
+
 // -----------------------------------------------------------------------------
 //
 std::vector<int> Configuration::particlesPerType() const
diff --git a/c++/src/configuration.h b/c++/src/configuration.h
index a692e3a..1ed05ec 100644
--- a/c++/src/configuration.h
+++ b/c++/src/configuration.h
@@ -63,6 +63,12 @@ public:
      */
     const std::vector<std::vector<std::string> > & elements() const { return elements_; }
 
+    /*! \brief Query for the first element at a site.
+     *  \param index : The index of the site.
+     *  \return : The first element, or the "*" placeholder for an empty site.
+     */
+    std::string firstElement(const int index) const;
+
     /*! \brief Const query for the atom id types.
      *  \return : The atom id types of the configuration.
      */
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..975a08d 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -532,8 +532,6 @@ double Matcher::updateSingleRate(const int index,
     const ProcessBucketMatchList & process_match_list = process.processMatchList();
     const ConfigBucketMatchList & config_match_list   = configuration.configMatchList(index);
 
-    // We will also need the elements.
-    const std::vector<std::vector<std::string> > & elements = configuration.elements();
     const std::vector<TypeBucket> & types = configuration.types();
 
     // Get cutoff distance from the process.
@@ -564,7 +562,7 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        types_before[i] = configuration.firstElement(idx);
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From f4e55a1398aaf9fa0b49e3abff6d3c3372f6ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 06/43] fix: include the outermost sites of a process in the
 custom rate geometry

The cutoff was compared without tolerance. Sites at fractional coordinates
could be left out of the geometry due to rounding, and the memory after the
list of updates was overwritten. The end of the match list is now also checked
before accessing the element.
---
 c++/src/hash.cpp    | 5 +++--
 c++/src/matcher.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..729ca45 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -120,7 +120,8 @@ uint64_t hashCustomRateInput(const int index,
     const int process_number = process.processNumber();
 
     // Get cutoff distance from the process.
-    const double cutoff = process.cutoff();
+    // Use the same tolerance as when matching coordinates.
+    const double cutoff = process.cutoff() + 1.0e-5;
 
     // This is the source of configuration information we will need.
     const ConfigBucketMatchList & config_match_list  = configuration.configMatchList(index);
@@ -131,7 +132,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 975a08d..424765d 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -535,10 +535,11 @@ double Matcher::updateSingleRate(const int index,
     const std::vector<TypeBucket> & types = configuration.types();
 
     // Get cutoff distance from the process.
-    const double cutoff = process.cutoff();
+    // Use the same tolerance as when matching coordinates.
+    const double cutoff = process.cutoff() + 1.0e-5;
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         ++it1;
         ++len;
-- 
2.43.0


From 45bdf1bab2d161241e0beabb878de1ff326ac7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 07/43] fix: do not share cached rates between sites with
 different local geometry

The key for stored rates holds the types but not the coordinates of the sites
within the cutoff. Different basis sites, and sites close to different
non-periodic boundaries, got the rates of each other.
---
 c++/src/matcher.cpp | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 424765d..8ad6ea6 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -26,6 +26,43 @@
 #include "mpicommons.h"
 #include "mpiroutines.h"
 
+// -----------------------------------------------------------------------------
+// Helper for telling sites apart which can not share cached rates, since the
+// sites within the cutoff are at different coordinates. These are different
+// basis sites, and sites at different distance from a non-periodic boundary.
+static ratekey geometryKey(const int index,
+                           const Process & process,
+                           const LatticeMap & lattice_map)
+{
+    int cell[3];
+    lattice_map.indexToCell(index, cell[0], cell[1], cell[2]);
+
+    const int repetitions[3] = { lattice_map.repetitionsA(),
+                                 lattice_map.repetitionsB(),
+                                 lattice_map.repetitionsC() };
+
+    const bool periodic[3] = { lattice_map.periodicA(),
+                               lattice_map.periodicB(),
+                               lattice_map.periodicC() };
+
+    // No site within the cutoff is further away than this in cells.
+    const int reach = static_cast<int>(process.cutoff()) + 2;
+
+    ratekey geometry = lattice_map.basisSiteFromIndex(index);
+    for (int i = 0; i < 3; ++i)
+    {
+        if (!periodic[i])
+        {
+            geometry = geometry * (reach + 1) + std::min(cell[i], reach);
+            geometry = geometry * (reach + 1) + std::min(repetitions[i] - 1 - cell[i], reach);
+        }
+    }
+
+    // Spread the bits with an odd constant.
+    return geometry * 0x9E3779B97F4A7C15ULL;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 Matcher::Matcher(const size_t & sites, const size_t & processes) :
@@ -107,7 +144,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[add_tasks[i].process]);
             const int index   = add_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration)
+                ^ geometryKey(index, process, lattice_map);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
@@ -130,7 +168,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[update_tasks[i].process]);
             const int index   = update_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration)
+                ^ geometryKey(index, process, lattice_map);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
-- 
2.43.0


From 8ccb9461ac59c10e78ba98211d6fb7b9b6672b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/43] fix: script the present types of a configuration

The script of a configuration held the types of the last query, i.e. often the
ones given at construction, instead of those after the simulation.
---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5dce0ce..d39cb39 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -351,8 +351,9 @@ class KMCConfiguration(object):
         types_string = "types = "
         indent = " "*9
         line = "["
-        nT = len(self.__types)
-        for i,t in enumerate(self.__types):
+        types = self.types()
+        nT = len(types)
+        for i,t in enumerate(types):
             # Add the type.
             line += "'" + t + "'"
             if i == nT-1:
-- 
2.43.0


From bc02a5ca7087b226f4620ad6304175d5a5f6cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 09/43] fix: count the dump time interval from the start of the
 run

When running a model a second time the sample times were counted from zero,
which gave a trajectory dump at every step.
---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..890db68 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -172,7 +172,8 @@ must be given as string."""
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
-        last_time = self.__cpp_timer.simulationTime()
+        start_time = self.__cpp_timer.simulationTime()
+        last_time = start_time
         if use_trajectory:
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
@@ -224,7 +225,7 @@ must be given as string."""
                 # Check if it is time to dump the previous step to the equidistant trajectory.
                 if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
                     time_step += 1
-                    sample_time = time_step * dump_time
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
                     last_time = sample_time
 
-- 
2.43.0


From 88e040ec8f25e22bd3850f689a0cc6472c7309ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 10/43] fix: perform the analysis post processing also if the
 last trajectory flush fails

---
 .../src/KMCLib/CoreComponents/KMCLatticeModel.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 890db68..dff91b2 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -278,13 +278,15 @@ must be given as string."""
 
         finally:
 
-            # Flush the trajectory buffers when done.
-            if use_trajectory:
-                trajectory.flush()
-
-            # Perform the analysis post processing.
-            for ap in analysis:
-                ap.finalize();
+            try:
+                # Flush the trajectory buffers when done.
+                if use_trajectory:
+                    trajectory.flush()
+
+            finally:
+                # Perform the analysis post processing.
+                for ap in analysis:
+                    ap.finalize();
 
     def _script(self, variable_name="model"):
         """
-- 
2.43.0


From 13afcab61f6fdd2dfe45ee43329e9950fef771d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 11/43] fix: write the lattice trajectory of a lattice with one
 single site

---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 03ecd93afef0bf74d86dce17d0857783b0385720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 12/43] fix: leave no partly written frames in the trajectory
 when a write fails

---
 .../Utilities/Trajectory/LatticeTrajectory.py |  2 +-
 .../KMCLib/Utilities/Trajectory/Trajectory.py | 19 +++++++++++++++++++
 .../Utilities/Trajectory/XYZTrajectory.py     |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 5fb8f09..b418c7d 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -143,7 +143,7 @@ class LatticeTrajectory(Trajectory):
 
         # Make sure only master writes.
         if MPICommons.isMaster():
-            with open(self._trajectory_filename, 'a') as trajectory:
+            with self._openForAppend() as trajectory:
                 for (sim_time, step, types) in zip(simulation_time_buffer, step_buffer, types_buffer):
                     trajectory.write( "times.append(%18.10e)\n"%sim_time )
                     trajectory.write( "steps.append(%i)\n"%step )
diff --git a/python/src/KMCLib/Utilities/Trajectory/Trajectory.py b/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
index 2bfc917..0484ec6 100644
--- a/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/Trajectory.py
@@ -7,6 +7,8 @@
 # GNU General Public License version 3, see <http://www.gnu.org/licenses/>.
 #
 
+import contextlib
+import os
 import time
 
 
@@ -60,6 +62,23 @@ class Trajectory(object):
     def flush(self):
         raise NotImplementedError
 
+    @contextlib.contextmanager
+    def _openForAppend(self):
+        """
+        Context manager for appending to the trajectory file. If the writing
+        fails the file is cut back to what it was, such that no partly written
+        data is left in the trajectory when the writing is tried again.
+        """
+        exists   = os.path.isfile(self._trajectory_filename)
+        position = os.path.getsize(self._trajectory_filename) if exists else 0
+        try:
+            with open(self._trajectory_filename, 'a') as trajectory:
+                yield trajectory
+        except BaseException:
+            if os.path.isfile(self._trajectory_filename):
+                os.truncate(self._trajectory_filename, position)
+            raise
+
     def append(self, simulation_time, step, configuration):
         """
         Append to the trajectory. The trajectory if flushed to file if the
diff --git a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
index a2f944b..dcc2871 100644
--- a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
@@ -131,7 +131,7 @@ class XYZTrajectory(Trajectory):
             if MPICommons.isMaster():
 
                 # Write data to file.
-                with open(self._trajectory_filename, 'a') as trajectory:
+                with self._openForAppend() as trajectory:
                     for i in range(len(self.__step)):
 
                         step = self.__step[i]
-- 
2.43.0


From 3ecb8b70525083572a07cccf09b58d5925f3d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 13/43] fix: keep MPI communication out of the clock dependent
 trajectory flushing

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py         | 5 ++++-
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 3 ---
 python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py     | 3 ---
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index dff91b2..f98bd0e 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -279,9 +279,12 @@ must be given as string."""
         finally:
 
             try:
-                # Flush the trajectory buffers when done.
+                # Flush the trajectory buffers when done. The flushing depends
+                # on the local clock of each process, so it can not hold any
+                # MPI communication. Wait here for the writing to be done.
                 if use_trajectory:
                     trajectory.flush()
+                    Backend.MPICommons.barrier()
 
             finally:
                 # Perform the analysis post processing.
diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index b418c7d..6bfb59b 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -201,7 +201,4 @@ class LatticeTrajectory(Trajectory):
                     # Write it to file.
                     trajectory.write(types_str)
 
-        # While the others wait.
-        MPICommons.barrier()
-
 
diff --git a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
index dcc2871..49fb1fa 100644
--- a/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/XYZTrajectory.py
@@ -147,9 +147,6 @@ class XYZTrajectory(Trajectory):
                             c = self.__atom_id_coordinates[i][j]
                             trajectory.write(" %16s   %15.10e %15.10e %15.10e  %i\n"%(t, c[0], c[1], c[2], j))
 
-            # While the other processes wait.
-            MPICommons.barrier()
-
             # Reset the buffers.
             self.__atom_id_types = []
             self.__atom_id_coordinates = []
-- 
2.43.0


From 10335e77b2744aebc748d0b40972008a833e51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 14/43] fix: move the coordinates of atoms replaced by an atom
 of the same type

---
 c++/src/configuration.cpp | 16 ++++++++++++++++
 c++/src/matchlistentry.h  |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 0f4722b..7e100d4 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -359,6 +359,22 @@ void Configuration::performBucketProcess(Process & process,
             ++it4;
             ++n_moved_;
 
+            // Save this move vector.
+            (*it5) = (*it1).move_coordinate;
+            ++it5;
+        }
+        else if ((*it1).has_move_coordinate)
+        {
+            // The atom at this index is replaced by another atom of the same
+            // type, which does not affect the types, but the atom is moved.
+            const int atom_id = atom_id_[index];
+            atom_id_coordinates_[atom_id] += (*it1).move_coordinate;
+
+            // Mark this atom_id as moved.
+            (*it4) = atom_id;
+            ++it4;
+            ++n_moved_;
+
             // Save this move vector.
             (*it5) = (*it1).move_coordinate;
             ++it5;
diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index 807f4f3..aa27546 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -148,6 +148,8 @@ public:
         index = -1;
         distance = c.distance;
         coordinate = Coordinate(c.x, c.y, c.z);
+        has_move_coordinate = false;
+        move_coordinate = Coordinate(0.0, 0.0, 0.0);
         match_types  = TypeBucket(c.match_types.size());
         update_types = TypeBucket(c.match_types.size());
         match_types[0] = 1;           // Indicating wildcard.
-- 
2.43.0


From 6edeef05ce26fdde74383a32e18bc18e27ecda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 15/43] fix: call the setup of the breakers before the KMC loop

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index f98bd0e..a55d4b7 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -196,6 +196,13 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breakers.
+        for b in breakers:
+            step = 0
+            b.setup(step,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From b1cd3e67fd4dc13df38d52358ea8cbab8865b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 16/43] fix: do not write outside the geometry of the rate
 calculator near boundaries

---
 c++/src/matcher.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 8ad6ea6..52c3504 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -611,7 +611,10 @@ double Matcher::updateSingleRate(const int index,
     std::vector<TypeBucket> update(len, TypeBucket(occupations[0].size()));
 
     // Loop over the process match list and update the types_after vector.
-    for (size_t i = 0; i < process_match_list.size(); ++i)
+    // Near a non-periodic boundary the last wildcards of a process can match
+    // with sites outside the cutoff, which are not a part of the geometry.
+    const size_t n_entries = std::min(process_match_list.size(), distance);
+    for (size_t i = 0; i < n_entries; ++i)
     {
         const TypeBucket & update_types = process_match_list[i].update_types;
 
-- 
2.43.0


From 5b6fda624e8e15de6f54e115818001ad824288e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 17/43] fix: escape quotes and backslashes of type names in the
 lattice trajectory

---
 .../Utilities/Trajectory/LatticeTrajectory.py   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6bfb59b..a26f164 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -143,6 +143,11 @@ class LatticeTrajectory(Trajectory):
 
         # Make sure only master writes.
         if MPICommons.isMaster():
+
+            # Type names are written as strings in double quotes.
+            def quoted(t):
+                return "\"" + t.replace("\\", "\\\\").replace("\"", "\\\"") + "\""
+
             with self._openForAppend() as trajectory:
                 for (sim_time, step, types) in zip(simulation_time_buffer, step_buffer, types_buffer):
                     trajectory.write( "times.append(%18.10e)\n"%sim_time )
@@ -156,7 +161,7 @@ class LatticeTrajectory(Trajectory):
                     if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
-                            types_str += "\"" + t + "\"" + ","
+                            types_str += quoted(t) + ","
 
                             # Berak the row if above 70 positions.
                             if row_length >= 70:
@@ -164,7 +169,7 @@ class LatticeTrajectory(Trajectory):
                                 row_length = len(indent)
 
                         # Add the last type.
-                        types_str += "\"" + types[-1] + "\"" + "])\n"
+                        types_str += quoted(types[-1]) + "])\n"
 
                     # With bucket types.
                     else:
@@ -176,10 +181,10 @@ class LatticeTrajectory(Trajectory):
                             # Start the types for this site.
                             types_str += "["
                             for t in bt[:-1]:
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                                types_str += "(" + str(t[0]) + "," + quoted(t[1]) + "),"
                             if len(bt) > 0:
                                 t = bt[-1]
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")"
+                                types_str += "(" + str(t[0]) + "," + quoted(t[1]) + ")"
                                 types_str += "],\n" + indent
 
                             else:
@@ -189,10 +194,10 @@ class LatticeTrajectory(Trajectory):
                         bt = bucket_types[-1]
                         types_str += "["
                         for t in bt[:-1]:
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                            types_str += "(" + str(t[0]) + "," + quoted(t[1]) + "),"
                         if len(bt) > 0:
                             t = bt[-1]
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")]"
+                            types_str += "(" + str(t[0]) + "," + quoted(t[1]) + ")]"
                         else:
                             types_str += "]"
 
-- 
2.43.0


From 8b01a3487e554e60aba6c0305162f4181367d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 18/43] fix: write type names with quotes and backslashes
 correctly in scripts

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++--
 python/src/KMCLib/CoreComponents/KMCProcess.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index d39cb39..a9682ab 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -355,7 +355,7 @@ class KMCConfiguration(object):
         nT = len(types)
         for i,t in enumerate(types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -379,7 +379,7 @@ class KMCConfiguration(object):
         nT = len(possible_types)
         for i,t in enumerate(possible_types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index ea8b8e8..add4401 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -403,7 +403,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_before)
         for i,t in enumerate(self._elements_before):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -425,7 +425,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_after)
         for i,t in enumerate(self._elements_after):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
-- 
2.43.0


From 407f3d1be8aa6fcf724aa7b2b3a9818c5b20e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 19/43] fix: interactions used with several configurations keep
 the types of the first one

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py       | 8 +++++++-
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py       | 3 +++
 python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..17fa25d 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -57,6 +57,7 @@ class KMCInteractions(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__backend_system = None
 
         # Set the rate calculator.
         self.__rate_calculator = None
@@ -156,7 +157,9 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The backend is only valid for the system it was generated for.
+        system = (dict(possible_types), n_basis, configuration)
+        if self.__backend is None or self.__backend_system != system:
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -265,9 +268,12 @@ the KMCRateCalculatorPlugin class itself. """
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards,
                                                       self.__rate_calculator)
+                # The C++ object refers to the rate calculator, keep it alive.
+                self.__backend.rate_calculator_instance = self.__rate_calculator
             else:
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards)
+            self.__backend_system = system
 
         # Return the stored backend.
         return self.__backend
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index a55d4b7..184d45a 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -79,6 +79,9 @@ class KMCLatticeModel(object):
             # Construct a timer.
             self.__cpp_timer = Backend.SimulationTimer()
 
+            # The backend object refers to the rate calculator of the interactions.
+            self.__cpp_interactions = cpp_interactions
+
             # Construct the backend object.
             self.__backend = Backend.LatticeModel(cpp_config,
                                                   self.__cpp_timer,
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..4c18d81 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -76,6 +76,7 @@ class KMCLocalConfiguration(object):
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
+        self.__backend_types = None
 
     def coordinates(self):
         """
@@ -102,7 +103,8 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The backend is only valid for the types it was generated for.
+        if self.__backend is None or self.__backend_types != possible_types:
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
@@ -114,6 +116,7 @@ class KMCLocalConfiguration(object):
             self.__backend = Backend.Configuration(cpp_coords,
                                                    cpp_types,
                                                    cpp_possible_types)
+            self.__backend_types = dict(possible_types)
 
         # Return the backend.
         return self.__backend
-- 
2.43.0


From e1ad88a18353b771385ad090381f62307b00a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 20/43] fix: a bucket process that adds a type which is not
 among the possible types crashes instead of being refused

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..f5e96b9 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -74,6 +74,12 @@ class KMCBucketProcess(KMCBaseProcess):
                     elif isinstance(ee, tuple):
                         all_types.append(ee[1])
 
+        # The types added by the process must be possible as well.
+        for e in self.__update:
+            for ee in e:
+                if isinstance(ee, tuple):
+                    all_types.append(ee[1])
+
         # Remove doublets and store on the class.
         self._all_present_types = list(set(all_types))
 
-- 
2.43.0


From a391c39e05b0164120991e68b6bd78617ab087f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 21/43] fix: an update of a bucket process that names a type
 twice keeps the last number only

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index f5e96b9..83fe80f 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -122,7 +122,11 @@ class KMCBucketProcess(KMCBaseProcess):
                 # Convert to C++
                 cpp_map = Backend.StdMapStringInt()
                 for e in update_entry:
-                    cpp_map[e[1]] = e[0]
+                    # A type may be given more than once.
+                    if e[1] in cpp_map:
+                        cpp_map[e[1]] += e[0]
+                    else:
+                        cpp_map[e[1]] = e[0]
 
                 # Add.
                 self.__cpp_update.push_back(cpp_map)
-- 
2.43.0


From b61921c37cba3071b3b23e42c70bd4875b05f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 22/43] fix: the script of a configuration with several
 particles per site can not be read back

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index a9682ab..b7f46f0 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -354,8 +354,8 @@ class KMCConfiguration(object):
         types = self.types()
         nT = len(types)
         for i,t in enumerate(types):
-            # Add the type.
-            line += repr(str(t))
+            # Add the type, or the list of types of a bucket site.
+            line += repr(t if isinstance(t, list) else str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
-- 
2.43.0


From ccf11a2f80ee5e3b70a29e57eec1c3be4421b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 23/43] fix: order of match list entries at the same distance
 decided by rounding

Coordinates were compared exactly when sorting entries at the same distance, though
samePoint() allows for rounding. A process with coordinates which are the results of
arithmetics, such as 0.1 + 0.2 and 0.3, got its entries in another order than the
configuration, and was never matched.
---
 c++/src/matchlistentry.cpp | 92 ++++++++++----------------------------
 1 file changed, 23 insertions(+), 69 deletions(-)

diff --git a/c++/src/matchlistentry.cpp b/c++/src/matchlistentry.cpp
index 2a42b0e..b27b2fe 100644
--- a/c++/src/matchlistentry.cpp
+++ b/c++/src/matchlistentry.cpp
@@ -18,6 +18,24 @@
 static double epsi__ = 1.0e-5;
 
 
+// -----------------------------------------------------------------------------
+// Helper for ordering coordinates along x, y and z. Values that are practically
+// the same must not decide, since they can differ by rounding.
+static bool lessCoordinate(const double x1, const double y1, const double z1,
+                           const double x2, const double y2, const double z2)
+{
+    if (std::fabs(x1 - x2) > epsi__)
+    {
+        return x1 < x2;
+    }
+    if (std::fabs(y1 - y2) > epsi__)
+    {
+        return y1 < y2;
+    }
+    return z1 < z2;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 bool samePoint(const MinimalMatchListEntry & m1,
@@ -82,29 +100,7 @@ bool operator<(const MinimalMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.x < m2.x)
-        {
-            return true;
-        }
-        else if (m1.x > m2.x)
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.y < m2.y )
-            {
-                return true;
-            }
-                else if ( m1.y > m2.y )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.z < m2.z );
-                }
-            }
+        return lessCoordinate(m1.x, m1.y, m1.z, m2.x, m2.y, m2.z);
     }
     else
     {
@@ -124,29 +120,8 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.coordinate.x() < m2.x)
-        {
-            return true;
-        }
-        else if (m1.coordinate.x() > m2.x)
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.coordinate.y() < m2.y )
-            {
-                return true;
-            }
-            else if ( m1.coordinate.y() > m2.y )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.coordinate.z() < m2.z );
-                }
-            }
+        return lessCoordinate(m1.coordinate.x(), m1.coordinate.y(), m1.coordinate.z(),
+                              m2.x, m2.y, m2.z);
     }
     else
     {
@@ -165,29 +140,8 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     {
         // If the distances are practically the same,
         // check the coordinate.
-        if ( m1.coordinate.x() < m2.coordinate.x())
-        {
-            return true;
-        }
-        else if (m1.coordinate.x() > m2.coordinate.x())
-        {
-            return false;
-            }
-        else
-        {
-            if ( m1.coordinate.y() < m2.coordinate.y() )
-            {
-                return true;
-            }
-            else if ( m1.coordinate.y() > m2.coordinate.y() )
-                {
-                    return false;
-                }
-                else
-                {
-                    return ( m1.coordinate.z() < m2.coordinate.z() );
-                }
-            }
+        return lessCoordinate(m1.coordinate.x(), m1.coordinate.y(), m1.coordinate.z(),
+                              m2.coordinate.x(), m2.coordinate.y(), m2.coordinate.z());
     }
     else
     {
-- 
2.43.0


From 3cb7947a1a065fd197cbf316cba5c26ec05170cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 24/43] fix: scripts hold six decimals of coordinates, move
 vectors and rate constants only

The model read back had other rates, and could often not be read at all, since the
rounded move vectors did not end at the rounded coordinates (for example with sites at
thirds of the cell). Numbers which need them are now written with all digits.
---
 .../CoreComponents/KMCLocalConfiguration.py      |  9 +++++----
 python/src/KMCLib/CoreComponents/KMCProcess.py   | 13 +++++++------
 python/src/KMCLib/CoreComponents/KMCUnitCell.py  | 13 +++++++------
 .../src/KMCLib/Utilities/ConversionUtilities.py  | 16 ++++++++++++++++
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index 4c18d81..d9b44e8 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -18,6 +18,7 @@ from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorS
 from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import bucketListToStdVectorStdVectorString
+from KMCLib.Utilities.ConversionUtilities import floatsToScript
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -133,7 +134,7 @@ class KMCLocalConfiguration(object):
         :returns: A script that can generate this local configuration.
         """
         # Define the float format string.
-        ff = "%15.6e"
+        ff = "%s"
 
         # Add the coordinates.
         varname = "coordinates"
@@ -147,12 +148,12 @@ class KMCLocalConfiguration(object):
         # For the first coordinate, if there are more than one coordinate.
         if len(self.__coordinates) > 1:
             c = self.__coordinates[0]
-            coords_string += coord_template%(c[0],c[1],c[2])
+            coords_string += coord_template%floatsToScript(c)
 
             # And the middle coordinates.
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "],\n"
             for c in self.__coordinates[1:-1]:
-                coords_string += coord_template%(c[0],c[1],c[2])
+                coords_string += coord_template%floatsToScript(c)
 
         # Add the last coordinate (which is also the first if there is only one coordinate).
         c = self.__coordinates[-1]
@@ -160,7 +161,7 @@ class KMCLocalConfiguration(object):
             coord_template = "[" + ff + "," + ff + "," + ff + "]]\n"
         else:
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
-        coords_string += coord_template%(c[0],c[1],c[2])
+        coords_string += coord_template%floatsToScript(c)
 
         # Types
         types_string  = "types = " + str(self.__types) + "\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index add4401..1ad258c 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -15,6 +15,7 @@ from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfFloats
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfPositiveIntegers
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Utilities.ConversionUtilities import floatsToScript
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.Exceptions.Error import Error
@@ -368,7 +369,7 @@ coordinates defining where the moved index goes."""
         :returns: A script that can generate this process object.
         """
         # Define the float format string.
-        ff = "%15.6e"
+        ff = "%s"
 
         # Setup the coordinates string.
         varname = "coordinates"
@@ -381,12 +382,12 @@ coordinates defining where the moved index goes."""
         # For the first coordinate, if there are more than one coordinate.
         if len(self._coordinates) > 1:
             c = self._coordinates[0]
-            coords_string += coord_template%(c[0],c[1],c[2])
+            coords_string += coord_template%floatsToScript(c)
 
             # And the middle coordinates.
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "],\n"
             for c in self._coordinates[1:-1]:
-                coords_string += coord_template%(c[0],c[1],c[2])
+                coords_string += coord_template%floatsToScript(c)
 
         # Add the last coordinate (which is also the first if there is only one coordinate).
         c = self._coordinates[-1]
@@ -394,7 +395,7 @@ coordinates defining where the moved index goes."""
             coord_template = "[" + ff + "," + ff + "," + ff + "]]\n"
         else:
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
-        coords_string += coord_template%(c[0],c[1],c[2])
+        coords_string += coord_template%floatsToScript(c)
 
         # Setup the elements before string.
         elements_before_string = "elements_before = "
@@ -449,7 +450,7 @@ coordinates defining where the moved index goes."""
             vector_template = "[" + ff + "," + ff + "," + ff + "]"
             for i, (index, vector) in enumerate(self._move_vectors):
 
-                move_vectors_string += "( %2i,"%(index) + vector_template%(vector[0], vector[1], vector[2])
+                move_vectors_string += "( %2i,"%(index) + vector_template%floatsToScript(vector)
 
                 if i < len(self._move_vectors)-1:
                     move_vectors_string += "),\n" + indent
@@ -466,7 +467,7 @@ coordinates defining where the moved index goes."""
 
         # Setup the rate constant string.
         rate_constant_string = "rate_constant   = " + ff
-        rate_constant_string = rate_constant_string%(self.__rate_constant)
+        rate_constant_string = rate_constant_string%floatsToScript([self.__rate_constant])
 
         # Get the script together.
         process_string = variable_name + " = KMCProcess(\n" + \
diff --git a/python/src/KMCLib/CoreComponents/KMCUnitCell.py b/python/src/KMCLib/CoreComponents/KMCUnitCell.py
index b4402ec..9ec83fc 100644
--- a/python/src/KMCLib/CoreComponents/KMCUnitCell.py
+++ b/python/src/KMCLib/CoreComponents/KMCUnitCell.py
@@ -13,6 +13,7 @@ import numpy
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Utilities.CheckUtilities import checkCellVectors
 from KMCLib.Utilities.CheckUtilities import checkCoordinateList
+from KMCLib.Utilities.ConversionUtilities import floatsToScript
 
 class KMCUnitCell(object):
     """ Class for describing a unitcell. """
@@ -79,7 +80,7 @@ class KMCUnitCell(object):
         :returns: A script that can generate this unit cell.
         """
         # Define the float format string.
-        ff = "%15.6e"
+        ff = "%s"
 
         # Setup the cell vectors script part.
         indent = " "*16
@@ -87,9 +88,9 @@ class KMCUnitCell(object):
         cell_vector_b_str = indent + "[" + ff + "," + ff + "," + ff + "],\n"
         cell_vector_c_str = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
 
-        cell_vector_a = cell_vector_a_str%(self.__cell_vectors[0][0], self.__cell_vectors[0][1], self.__cell_vectors[0][2])
-        cell_vector_b = cell_vector_b_str%(self.__cell_vectors[1][0], self.__cell_vectors[1][1], self.__cell_vectors[1][2])
-        cell_vector_c = cell_vector_c_str%(self.__cell_vectors[2][0], self.__cell_vectors[2][1], self.__cell_vectors[2][2])
+        cell_vector_a = cell_vector_a_str%floatsToScript(self.__cell_vectors[0])
+        cell_vector_b = cell_vector_b_str%floatsToScript(self.__cell_vectors[1])
+        cell_vector_c = cell_vector_c_str%floatsToScript(self.__cell_vectors[2])
         cell_string = "cell_vectors = [" + cell_vector_a + cell_vector_b + cell_vector_c
 
         # Setup the basis points scipt part.
@@ -99,9 +100,9 @@ class KMCUnitCell(object):
         basis_point_str = "[" + ff + "," + ff + "," + ff + "]"
         for i,point in enumerate(self.__basis_points):
             if (i == 0):
-                basis_string += basis_point_str%(point[0], point[1], point[2])
+                basis_string += basis_point_str%floatsToScript(point)
             else:
-                basis_string += indent + basis_point_str%(point[0], point[1], point[2])
+                basis_string += indent + basis_point_str%floatsToScript(point)
 
             if len(self.__basis_points) > i+1:
                 basis_string += ",\n"
diff --git a/python/src/KMCLib/Utilities/ConversionUtilities.py b/python/src/KMCLib/Utilities/ConversionUtilities.py
index 672d438..b8922af 100644
--- a/python/src/KMCLib/Utilities/ConversionUtilities.py
+++ b/python/src/KMCLib/Utilities/ConversionUtilities.py
@@ -277,4 +277,20 @@ def stdVectorTypeBucketToPython(cpp_vector, cpp_type_map):
     return types
 
 
+def floatsToScript(values):
+    """
+    Format floating point numbers for a script, such that they are the same
+    when read back. Six decimals are used where they are enough, apart from
+    rounding errors.
+
+    :param values: A sequence of floating point numbers.
 
+    :returns: A tuple with one string for each number.
+    """
+    strings = []
+    for value in values:
+        string = "%15.6e"%(value)
+        if abs(float(string) - value) > 1.0e-14*abs(value):
+            string = "%23.16e"%(value)
+        strings.append(string)
+    return tuple(strings)
-- 
2.43.0


From e5dbeb585a69e8bac1a4053783147e47c5c64e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 25/43] fix: builtin rate calculators could not exclude sites
 from caching

The vectors in the arguments and return values of the compiled calculators
had no wrapped types in the Custom module, so that a model using such a
calculator ended with a TypeError.
---
 c++/wrap/CMakeLists.txt | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/wrap/CMakeLists.txt b/c++/wrap/CMakeLists.txt
index 07bc378..b25e746 100644
--- a/c++/wrap/CMakeLists.txt
+++ b/c++/wrap/CMakeLists.txt
@@ -26,6 +26,10 @@ file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_vector.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_map.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_string.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_pair.i\" \n)
+# The arguments and return values of the calculators.
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template(StdVectorString) std::vector<std::string>;\n" )
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template(StdVectorDouble) std::vector<double>;\n" )
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template(StdVectorInt) std::vector<int>;\n" )
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"ratecalculator.h\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%module Custom"\n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%{"\n )
-- 
2.43.0


From ca61681765372941c3276f88ea90b5f6b9fdaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 26/43] fix: a rate calculator set after a builtin one was
 given the C++ configuration

setRateCalculator() kept the mark of the builtin calculator.
---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 17fa25d..4228c66 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -85,6 +85,7 @@ class KMCInteractions(object):
 
         # If the rate calculator given is a string we should use one of the
         # builtin custom calculators.
+        self.__builtin_custom = False
         if isinstance(rate_calculator, str):
 
             # Get the list of custom calculators.
-- 
2.43.0


From b335bb02b539f7e31e705910e72cda33cc2f0977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 27/43] fix: a run ended by an error in the rate calculator
 left the events of the old configuration

The event had been performed, but the events around it were not matched
again, so that a further run() performed events that were not available.
The matching is now completed at the start of the next run().
---
 c++/src/latticemodel.cpp                       | 18 ++++++++++++++++--
 c++/src/latticemodel.h                         |  9 +++++++++
 .../KMCLib/CoreComponents/KMCLatticeModel.py   |  4 ++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index f4e918e..eb8f49a 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -151,13 +151,27 @@ void LatticeModel::singleStep()
     configuration_.performBucketProcess(process, site_index, lattice_map_);
 
     // Run the re-matching of the affected sites and their neighbours.
-    const std::vector<int> & indices = \
+    unmatched_indices_ = \
         lattice_map_.supersetNeighbourIndices(process.affectedIndices(), match_range_);
 
+    completeMatching();
+}
+
+// -----------------------------------------------------------------------------
+//
+void LatticeModel::completeMatching()
+{
+    if (unmatched_indices_.empty())
+    {
+        return;
+    }
+
+    // An error in a custom rate calculator leaves here.
     matcher_.calculateMatching(interactions_,
                                configuration_,
                                lattice_map_,
-                               indices);
+                               unmatched_indices_);
+    unmatched_indices_.clear();
 
     // Update the interactions' probability table.
     interactions_.updateProbabilityTable();
diff --git a/c++/src/latticemodel.h b/c++/src/latticemodel.h
index c010219..78af9f8 100644
--- a/c++/src/latticemodel.h
+++ b/c++/src/latticemodel.h
@@ -47,6 +47,12 @@ public:
      */
     void singleStep();
 
+    /*! \brief Complete the matching of a step that was ended by an error in
+     *         a custom rate calculator, after the event was performed. Does
+     *         nothing if all matching is up to date.
+     */
+    void completeMatching();
+
     /*! \brief Function for updating the time for the single step.
      */
     void propagateTime();
@@ -83,6 +89,9 @@ private:
      */
     int calculateMatchRange() const;
 
+    /// The indices left to match when a step was ended by an error.
+    std::vector<int> unmatched_indices_;
+
     /// The number of neighbour cells to include in the match lists.
     int match_range_;
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 184d45a..bf5d4d7 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -166,6 +166,10 @@ must be given as string."""
 
         cpp_model = self._backend()
 
+        # An error in the rate calculator may have ended the last run before
+        # the new events were found.
+        cpp_model.completeMatching()
+
         # Print the initial matching information if above the verbosity threshold.
         if self.__verbosity_level > 9:
             self.__printMatchInfo(cpp_model)
-- 
2.43.0


From 690e022a3afae57a960bb0c546f57622fc36d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 28/43] fix: script of a local configuration has no center, and
 can not be read back for types given as numpy strings

---
 .../src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index d9b44e8..6920ba2 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -67,6 +67,7 @@ class KMCLocalConfiguration(object):
                                         msg="The 'center' index paramter must be one in the coordinate list.")
 
         # Center the coordinates.
+        self.__center = center
         self.__coordinates = centerCoordinates(coordinates, center)
 
         # Check the types.
@@ -164,12 +165,17 @@ class KMCLocalConfiguration(object):
         coords_string += coord_template%floatsToScript(c)
 
         # Types
-        types_string  = "types = " + str(self.__types) + "\n"
+        types = [ [ (n, str(t)) for (n,t) in bucket ] for bucket in self.__types ]
+        types_string  = "types = " + str(types) + "\n"
 
         # Add the configuration.
+        center_string = ""
+        if self.__center != 0:
+            center_string = ",\n    center=%i"%(self.__center)
+
         config_string = variable_name + """ = KMCLocalConfiguration(
     coordinates=coordinates,
-    types=types)
+    types=types""" + center_string + """)
 """
 
         # Add the comment.
-- 
2.43.0


From 32234152f820394e3fc11f4926eda6587cddb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 29/43] fix: malformed or negative numbered particles are
 accepted by the bucket formats

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..32e4f75 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -287,6 +287,20 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
     # Checked.
     return parameter
 
+def checkBucketTuple(t):
+    """
+    Check that a numbered particle is of the (N,"A") format.
+
+    :param t: The tuple to check.
+    :return: The checked tuple.
+    """
+    if not len(t) == 2 or not isinstance(t[0], (int, numpy.integer)) or not isinstance(t[1], str):
+        raise Error("Bucket type given as a tuple must be of format (int, str).")
+    if t[0] < 0:
+        raise Error("The number of particles given in a bucket type may not be negative.")
+    return t
+
+
 def checkAndNormaliseBucketEntry(t):
     """
     Check that the foramt of the type entry t is any of the valid
@@ -305,9 +319,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
-                    raise Error("Bucket type given as a tuple must be of format (int, str).")
-                normalised_type.append(tt)
+                normalised_type.append(checkBucketTuple(tt))
             else:
                 raise Error("Bucket entry given as a list must only contain particles, str, or numbered particles (int, str) or a combination of the two.")
 
@@ -338,9 +350,7 @@ def checkAndNormaliseBucketEntry(t):
         return final_type
 
     elif isinstance(t, tuple):
-        if not len(t) == 2 or not isinstance(t[0], int) or not isinstance(t[1], str):
-            raise Error("Bucket type given as a tuple must be of format (int, str).")
-        return [t]
+        return [checkBucketTuple(t)]
     elif isinstance(t, str):
         return [(1,t)]
     else:
-- 
2.43.0


From 3ba22044e1a02bf8a48fb1bf23f2c795e85c09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 30/43] fix: update information of wrong length or format
 crashes the interpreter

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 83fe80f..a278391 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -102,7 +103,16 @@ class KMCBucketProcess(KMCBaseProcess):
         :param update_info: The update information to check.
         :returns: The checked update information.
         """
-        # FIXME
+        msg = "The 'update' information to a KMCBucketProcess constructor must be a list, of the same length as the coordinates, with a list of (int, str) tuples for each coordinate."
+        if len(checkSequence(update_info, msg)) != len(self._coordinates):
+            raise Error(msg)
+
+        for entry in update_info:
+            for e in checkSequence(entry, msg):
+                checkSequence(e, msg)
+                if len(e) != 2 or not isinstance(e[0], (int, numpy.integer)) or not isinstance(e[1], str):
+                    raise Error(msg)
+
         return update_info
 
     def _update(self):
-- 
2.43.0


From 6c95a574577fcfe56339cde394e4da2941caba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 31/43] fix: move vector indices outside the local
 configuration raise an IndexError

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 1ad258c..a848453 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -206,7 +206,9 @@ coordinates defining where the moved index goes."""
         for t in move_vectors:
             if not isinstance(t, tuple):
                 raise Error(msg)
-            elif not isinstance(t[0], int):
+            elif len(t) != 2 or not isinstance(t[0], int):
+                raise Error(msg)
+            elif t[0] < 0 or t[0] >= len(self._coordinates):
                 raise Error(msg)
             # Check the vector.
             checkSequenceOfFloats(t[1], msg)
-- 
2.43.0


From 45bc7eab93c0ca258e519d3f8db97cc8c46b3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 32/43] fix: bucket types of a length other than the number of
 sites crash the interpreter

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index b7f46f0..a479033 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -209,6 +209,10 @@ class KMCConfiguration(object):
         if default_type is not None:
             raise Error("A default type can only be used in combination with the long types format\nwhen constructing a KMCConfiguration object.")
 
+        # There must be one entry for each lattice site.
+        if len(types) != self.__n_lattice_sites:
+            raise Error("The length of the 'types' parameter must match the number of lattice sites.")
+
         # For each element, check that the foramt is any of the valid
         # "A" - single particle
         # (N,"A") - numbered single particle
-- 
2.43.0


From 33ef4d2737963b9e6072551f3df68e9cc3e4c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 33/43] fix: a possible type given more than once writes past
 the end of the backend's occupation vectors

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index a479033..db7906c 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -114,8 +114,9 @@ class KMCConfiguration(object):
         if "*" in possible_types:
             raise Error("The wildcard caracter '*' is not a valid type.")
 
-        # Setup the possible types as a dict.
-        possible_types = ["*"] + possible_types
+        # Setup the possible types as a dict, where a type given more than once
+        # counts once.
+        possible_types = ["*"] + list(dict.fromkeys(possible_types))
         self.__possible_types = dict(zip(possible_types, range(len(possible_types))))
 
         # Every thing is checked - store the data on the class.
-- 
2.43.0


From 9a8d339147ca25a654d364849f981dfd72b46d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 34/43] fix: processes reaching outside a non-periodic lattice
 are read past the end of the index mapping

---
 c++/src/interactions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 92e461d..629f033 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -128,7 +128,7 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
         // Insert the wildcards and update the indexing.
         int old_index = 0;
         int new_index = 0;
-        std::vector<int> index_mapping(config_matchlist.size());
+        std::vector<int> index_mapping(process_matchlist.size());
 
         for ( ; it1 != process_matchlist.end() && it2 != config_matchlist.end(); ++it1, ++it2 )
         {
@@ -154,8 +154,16 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
            }
         }
 
+        // The rest of the process match list is not within the lattice at the
+        // central cell and keeps its order.
+        for ( ; it1 != process_matchlist.end(); ++it1 )
+        {
+            index_mapping[old_index] = new_index;
+            ++old_index;
+            ++new_index;
+        }
+
         // With this mapping information we can update the process id moves.
-        index_mapping.resize(old_index);
         std::vector<std::pair<int,int> > & id_moves = p.idMoves();
         for (size_t j = 0; j < id_moves.size(); ++j)
         {
-- 
2.43.0


From 559459bbe37de5bc4d92e92ecd823ee205a02f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 35/43] fix: lattice map looks up cells with the number of
 basis points of the lattice constructed last

---
 c++/src/latticemap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..ba7a993 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -199,6 +199,9 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
     const int tmp2 = tmp1 * repetitions_[2] + k;
     const int tmp3 = tmp2 * n_basis_;
 
+    // The lattice constructed last may have another number of basis points.
+    tmp_cell_indices__.resize(n_basis_);
+
     for (int l = 0; l < n_basis_; ++l)
     {
         tmp_cell_indices__[l] = tmp3 + l;
-- 
2.43.0


From 4ca9b1da028c7fc179b2d88d0a0d3b5f2d2cb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 36/43] fix: multiplicity of crowded sites overflows and
 divides by zero

---
 c++/src/matchlist.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..f5a03f8 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -11,6 +11,7 @@
  */
 
 #include <cstdlib>
+#include <cmath>
 
 #include "matchlist.h"
 #include "configuration.h"
@@ -147,7 +148,7 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -172,24 +173,18 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
 
                     if (min != 0)
                     {
-                        // Calculate n! / (r!(n-r)!)
-
-                        // Get the numerator.
-                        int local_n = t2[i];
-                        for (int j = t2[i] - 1; j > max; --j)
-                        {
-                            local_n *= j;
-                        }
-
-                        // Calculate the denominator.
-                        int local_r = min;
-                        for (int j = min-1; j > 0; --j)
+                        // Calculate n! / (r!(n-r)!). The factorials are far
+                        // outside the range of an int already for moderate
+                        // occupations. All intermediate results are binomial
+                        // coefficients.
+                        double c = 1.0;
+                        for (int j = 1; j <= min; ++j)
                         {
-                            local_r *= j;
+                            c = std::floor(c * (max + j) / j + 0.5);
                         }
 
                         // Multiply m by (n! / (r! (n-r)!))
-                        m *= (local_n / local_r);
+                        m *= c;
                     }
                 }
             }
@@ -197,5 +192,5 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From 0979a908ab05b08136475dc12379d0ebf2d4bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 37/43] fix: zero history steps or bins of the MSD analysis
 abort the interpreter

---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index d5a8df2..8306c11 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -51,6 +51,10 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
         # Check and set the number of bins.
         self.__n_bins = checkPositiveInteger(n_bins, 100, "n_bins")
 
+        # Neither of them can be zero.
+        if self.__history_steps < 1 or self.__n_bins < 1:
+            raise Error("The 'history_steps' and 'n_bins' parameters must be larger than zero.")
+
         # Check and set the time maximum.
         self.__t_max   = checkPositiveFloat(t_max, 100.0, "t_max")
 
-- 
2.43.0


From 555a837e092ca4ee02f19ecc7bc64ebcedcb4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 38/43] fix: bucket update information can be given as a
 wildcard where nothing changes

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index a278391..1d67b90 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -107,6 +107,9 @@ class KMCBucketProcess(KMCBaseProcess):
         if len(checkSequence(update_info, msg)) != len(self._coordinates):
             raise Error(msg)
 
+        # Nothing is changed at a wildcard.
+        update_info = [[] if (isinstance(entry, str) and entry == "*") else entry for entry in update_info]
+
         for entry in update_info:
             for e in checkSequence(entry, msg):
                 checkSequence(e, msg)
-- 
2.43.0


From f9f8ffaa583a0ef555e293065402073a18f5c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 39/43] fix: intervals of zero steps and seeds beyond the range
 of the backend end a run with other exceptions

---
 .../src/KMCLib/CoreComponents/KMCControlParameters.py  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 0ca0e30..cacaf10 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -77,6 +77,10 @@ class KMCControlParameters(object):
                                                       0,
                                                       "number_of_steps")
 
+        # An interval can not be zero.
+        if dump_interval == 0 or analysis_interval == 0:
+            raise Error("The 'dump_interval' and 'analysis_interval' parameters must be larger than zero.")
+
         self.__dump_interval = None
         if dump_interval is not None:
             self.__dump_interval = checkPositiveInteger(dump_interval,
@@ -92,10 +96,14 @@ class KMCControlParameters(object):
                                            1,
                                            "seed")
 
+        # The seed is an int in the backend.
+        if self.__seed > 2147483647:
+            raise Error("The 'seed' parameter may not be larger than 2147483647.")
+
         if dump_time_interval is not None:
             if not isinstance(dump_time_interval, float):
                 raise Error("The 'dump_time_interval' parameter must be of type float.")
-            if dump_time_interval <= 0:
+            if not dump_time_interval > 0:
                 raise Error("The 'dump_time_interval' parameter must be greater than zero.")
 
         self.__dump_time_interval = dump_time_interval
-- 
2.43.0


From 6db0525e5f1408d6bfb86ca2021937d8332fc8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 40/43] fix: coordinates, rates and times that are not a number
 are accepted

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 32e4f75..9c48b3e 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -70,7 +70,7 @@ def checkCellVectors(cell_vectors):
     # Check for linear dependencies.
     cell_T = numpy.transpose(cell_vectors)
     cell_determinant = numpy.linalg.det(cell_T)
-    if cell_determinant < 0.00001:
+    if not cell_determinant >= 0.00001:
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
     # Done checking.
@@ -108,6 +108,10 @@ def checkCoordinateList(coordinates, varname="coordinates"):
         if not all([isinstance(c,float) for c in coord]):
             raise Error("All '%s' entries must be given as floating point numbers."%(varname))
 
+        # Check that each element is a number.
+        if not numpy.all(numpy.isfinite(coord)):
+            raise Error("All '%s' entries must be given as finite numbers."%(varname))
+
     # Convert to a numpy array and return.
     return numpy.array(coordinates)
 
@@ -281,7 +285,7 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
         raise Error(msg)
 
     # Check value.
-    if parameter < 0.0:
+    if not parameter >= 0.0:
         raise Error(msg)
 
     # Checked.
-- 
2.43.0


From 28b581ee785e2304aac2a66fb4c9f641f94d66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 41/43] fix: analyses with bins of zero size are accepted and
 divide by zero

---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py          | 2 ++
 python/src/KMCLib/Analysis/TimeStepDistribution.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index 8306c11..4184d26 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -57,6 +57,8 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
 
         # Check and set the time maximum.
         self.__t_max   = checkPositiveFloat(t_max, 100.0, "t_max")
+        if self.__t_max == 0.0:
+            raise Error("The 't_max' parameter must be larger than zero.")
 
         # Check that the track type.
         if not isinstance(track_type, str):
diff --git a/python/src/KMCLib/Analysis/TimeStepDistribution.py b/python/src/KMCLib/Analysis/TimeStepDistribution.py
index 23ac36a..49c572b 100644
--- a/python/src/KMCLib/Analysis/TimeStepDistribution.py
+++ b/python/src/KMCLib/Analysis/TimeStepDistribution.py
@@ -12,6 +12,7 @@ import sys
 
 from KMCLib.PluginInterfaces.KMCAnalysisPlugin import KMCAnalysisPlugin
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend.Backend import MPICommons
 
 class TimeStepDistribution(KMCAnalysisPlugin):
@@ -29,6 +30,8 @@ class TimeStepDistribution(KMCAnalysisPlugin):
         """
         # Check the input parameters.
         self.__binsize = checkPositiveFloat(binsize, 1.0, "binsize")
+        if self.__binsize == 0.0:
+            raise Error("The 'binsize' parameter must be larger than zero.")
 
         # Setup an initial histogram of 10 entries.
         self.__histogram = numpy.zeros(10, dtype=int)
-- 
2.43.0


From f5f8a697652c23ab26c4d55eafc347775a935804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 42/43] fix: conversion of a bin number out of range is
 undefined in the MSD analysis

---
 c++/src/ontheflymsd.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c++/src/ontheflymsd.cpp b/c++/src/ontheflymsd.cpp
index 0f236c8..653df5f 100644
--- a/c++/src/ontheflymsd.cpp
+++ b/c++/src/ontheflymsd.cpp
@@ -115,12 +115,14 @@ void calculateAndBinMSD(const std::vector< std::pair<Coordinate, double> > & his
         // Add to the step count.
         ++hstep_counts[i-1];
 
-        // Calculat the bin.
-        const double dt  = history[0].second - history[i].second;
-        const size_t bin = static_cast<int>(dt/binsize);
+        // Calculat the bin. It does not need to fit into an integer.
+        const double dt = history[0].second - history[i].second;
+        const double bin_number = dt/binsize;
 
-        if (bin < histogram.size())
+        if (bin_number < static_cast<double>(histogram.size()))
         {
+            const size_t bin = static_cast<size_t>(bin_number);
+
             // If within range, calculate the squared diff and the squared diff squared.
             const Coordinate diff_abc = (history[i].first - history[0].first);
 
-- 
2.43.0


From 050092b4149180a517e2f3c7163efb662753a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 43/43] fix: a refused run() called during a run reseeds its
 random numbers

---
 .../KMCLib/CoreComponents/KMCLatticeModel.py  | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index bf5d4d7..07a210f 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -140,6 +140,9 @@ must be given as string."""
         if not isinstance(trajectory_type, str):
             raise Error("The 'trajectory_type' input must given as a string.")
 
+        if use_trajectory and trajectory_type not in ('lattice', 'xyz'):
+            raise Error("The 'trajectory_type' input must be either 'lattice' or 'xyz'.")
+
         # Check the analysis.
         if analysis is None:
             analysis = []
@@ -154,13 +157,6 @@ must be given as string."""
             msg = "Each element in the 'breakers' list must be an instance of KMCBreakerPlugin."
             breakers = checkSequenceOf(breakers, KMCBreakerPlugin, msg)
 
-        # Set and seed the backend random number generator.
-        if not Backend.setRngType(control_parameters.rngType()):
-            raise Error("DEVICE random number generator is not supported by your system, or the std::random_device in the standard C++ library you use is implemented using a pseudo random number generator (entropy=0).")
-
-        Backend.seedRandom(control_parameters.timeSeed(),
-                           control_parameters.seed())
-
         # Construct the C++ lattice model.
         prettyPrint(" KMCLib: setting up the backend C++ object.")
 
@@ -178,6 +174,13 @@ must be given as string."""
         if cpp_model.interactions().totalAvailableSites() == 0:
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
+        # Set and seed the backend random number generator.
+        if not Backend.setRngType(control_parameters.rngType()):
+            raise Error("DEVICE random number generator is not supported by your system, or the std::random_device in the standard C++ library you use is implemented using a pseudo random number generator (entropy=0).")
+
+        Backend.seedRandom(control_parameters.timeSeed(),
+                           control_parameters.seed())
+
         # Setup a trajectory object.
         start_time = self.__cpp_timer.simulationTime()
         last_time = start_time
@@ -185,11 +188,9 @@ must be given as string."""
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
                                                configuration=self.__configuration)
-            elif trajectory_type == 'xyz':
+            else:
                 trajectory = XYZTrajectory(trajectory_filename=trajectory_filename,
                                            configuration=self.__configuration)
-            else:
-                raise Error("The 'trajectory_type' input must be either 'lattice' or 'xyz'.")
 
             # Add the first step.
             trajectory.append(simulation_time  = self.__cpp_timer.simulationTime(),
-- 
2.43.0

