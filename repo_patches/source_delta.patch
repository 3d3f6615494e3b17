From 2271cde6823e23669223fdf97a2ffa35cc33558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 01/49] fix: TimeBaseDays counts microseconds as fractions of a
 day, not of a second

---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From 8bf7a8f77a4212ffe4fd361144ac1c009f94e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 02/49] fix: a time in the day before the first daily step no
 longer counts as the first step

---
 src/eumopps/catalogue/step.py                         | 3 ++-
 src/eustace/analysis/advanced_standard/fileio/step.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..8f59383 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -5,6 +5,7 @@ from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 import os.path
 from datetime import datetime
+import numpy
 
 class Step(object):
     """Describes one step of an iterative operation."""
@@ -96,7 +97,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return int( numpy.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
 
diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index a0cad7e..0d09cd9 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -7,6 +7,7 @@ from eumopps.catalogue.dataset import CatalogueFileEntry
 from eustace.timeutils.epoch import EPOCH
 import os.path
 from datetime import datetime
+import numpy
 
 class StepDailyEpoch(StepDaily):
     """One step per day between start and end days with indexes defined as days since the analysis reference epoch."""
@@ -41,7 +42,7 @@ class StepDailyEpoch(StepDaily):
         return name
         
     def index_at_time(self, t):
-        return int( self.timebase().datetime_to_number(t) )
+        return int( numpy.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
         return self.timebase().number_to_datetime(operationindex)
\ No newline at end of file
-- 
2.43.0


From d8af06bee13b3697ebf88253b67741d40a975392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 03/49] fix: an operation whose module is a class runs that
 module

---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 7338d567ac698ba3bdab62a8d8a8e2bc5fb623b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 04/49] fix: batch schedules ask the catalogue for its
 operation count by the method that exists

---
 src/eumopps/catalogue/jinja/batches.py      | 4 ++--
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..0c10988 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, batchsize=self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From 65ed6ac07ccb491d6cda56820ce42b904d5315bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:04 +0000
Subject: [PATCH 05/49] fix: lists of numbers without gaps load from catalogue
 files as they were saved

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..b8f705f 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -90,7 +90,7 @@ def read_variable(variable):
 
             # Remove any masked ones
             if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
+                result = result.data[~numpy.ma.getmaskarray(result)]
 
             # Convert to list
             result = result.tolist()
@@ -103,7 +103,8 @@ def read_variable(variable):
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                mask = numpy.ma.getmaskarray(result)
+                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From ee98ab08da64b253eb0b38945da5a8ee26a73258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 06/49] fix: file entries keep their own time and size when
 other entries lack theirs

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index b8f705f..e1636a5 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -50,8 +50,10 @@ def load_object_list(parentgroup, listname):
         listitems.append(load_object(group))
     return listitems
 
-def read_variable(variable):
-    """Read contents of variable (will be simple type)."""
+def read_variable(variable, keep_missing=False):
+    """Read contents of variable (will be simple type).
+       Missing elements of 1D numeric variables are removed, unless keep_missing is set
+       in which case they are None, so that all other elements keep their place."""
 
     result = None
 
@@ -89,15 +91,15 @@ def read_variable(variable):
         elif variable.ndim == 1:
 
             # Remove any masked ones
-            if hasattr(result, 'mask'):
+            if hasattr(result, 'mask') and not keep_missing:
                 result = result.data[~numpy.ma.getmaskarray(result)]
 
-            # Convert to list
+            # Convert to list (any masked ones left are None)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
@@ -145,7 +147,7 @@ def load_object(group):
         for variable in group.variables.values():
 
             # Read all entries for this variable
-            values = read_variable(variable)
+            values = read_variable(variable, keep_missing=True)
 
             # Populate relevant class parameters
             for index, value in enumerate(values):
-- 
2.43.0


From 7a2dda817fb731940fd8378564a718a8ad1c2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:32 +0000
Subject: [PATCH 07/49] fix: zero, false and empty values survive saving to
 JSON

---
 src/eumopps/jsonobjects/jsonobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 8c64643..18d88ef 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -26,7 +26,7 @@ def save_object(obj):
     if hasattr(obj, '__dict__'):
 
         # Make dictionary of all class items and recurse if needed
-        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v)
+        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v is not None)
     
         # Append class name and module so we can recreate
         result[CLASSID] = get_class_id(obj)
-- 
2.43.0


From b220d4150750b25b6b9a32f22c73ec0c6ed560ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:12 +0000
Subject: [PATCH 08/49] fix: reading location pointers no longer fails for want
 of an import

---
 src/eustace/analysis/fileio/locationpointers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..e02ec51 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
-- 
2.43.0


From a327a063038426f877328e0a1b4839875959687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:12 +0000
Subject: [PATCH 09/49] fix: observation files of another location table are
 refused, as documented

---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..333650b 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -130,6 +130,10 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            raise Exception('Location UUID mismatch')
+
         # read data
         contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From c703e4c475813c6d8bf26b6d625b77225f3e66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:12 +0000
Subject: [PATCH 10/49] fix: a source without data gives empty observations for
 each of its observables

---
 src/eustace/analysis/fileio/observationsource_missing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index a4b31d8..c1042f2 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -23,7 +23,7 @@ class ObservationSourceMissing(ObservationSource):
     def observations(self, observable):
         """Retrieve observations for specified observable quantity."""
         
-        if self.missing_observable == observable:
+        if observable in self.missing_observables:
             # return as Observations object
             return ObservationsMissing(None)
         else:
-- 
2.43.0


From a771b3a7787af10c83581a8b461e278f46148dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:14 +0000
Subject: [PATCH 11/49] fix: values just below the start of a grid axis are
 refused, not put into its first cell

---
 src/eustace/satgrid/grid.py                       | 2 +-
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..9c1995e 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -17,7 +17,7 @@ class GridAxis(object):
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        bin_indices = numpy.floor((values - self.start) / self.increment).astype(numpy.int32)
         if self.wrap:
             wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
             bin_indices[wrapped] = 0
diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..1b573db 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -29,7 +29,7 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        bin_indices = numpy.floor(((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
         if self.circular:
             wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From 9399858d065254d2c40e465d3f75673981257290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:19 +0000
Subject: [PATCH 12/49] fix: smallest uncertainty of a diagnostic grid cell is
 compared with uncertainties, not observations

---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From 7ed14a423b04ef06ce7a6df4757307496fd083a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:49 +0000
Subject: [PATCH 13/49] fix: a time step without observations adds no evidence
 to a space-time component instead of breaking its solution

---
 .../analysis/advanced_standard/components/spacetime.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..9f6bb5f 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -145,7 +145,9 @@ class SpaceTimeComponentSolution(ComponentSolution):
 
     def update_time_step(self):
 
-        self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
+        # A time step without observations has no evidence to store
+        if self.measurement is not None:
+            self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
         self.measurement = None
         self.measurement_time_index = None
 
-- 
2.43.0


From 41a7ccecf39d9d8151b4e91966599fac7a766dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:49 +0000
Subject: [PATCH 14/49] fix: merging measurement updates leaves the stored
 updates unchanged

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 9f6bb5f..3fcef5e 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -251,7 +251,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                # Copy so that the update held in storage is left as it is
+                merged_updates = MeasurementUpdate(update.information_precision.copy(), update.information_vector.copy())
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From d9f577d8f54c4ff1507682cbc3199a2857cb3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:53 +0000
Subject: [PATCH 15/49] fix: samples of delayed spatial components are written
 to and read from the files given for them

---
 .../advanced_standard/components/storage_files.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..2b3dbb3 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -311,13 +311,13 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +341,14 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
-- 
2.43.0


From d995f42be41a0c8d35c1203e633d6c4c45f7b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:53 +0000
Subject: [PATCH 16/49] fix: samples and prior samples stored by file name
 pattern can be written and read back

---
 .../advanced_standard/components/storage_files.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 2b3dbb3..ef243f4 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -473,8 +473,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read(self.prior_sample_read_pattern, sample_key)
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -494,14 +494,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From 9abb1f9ae702866fe02c9974d1921a3015f10888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 17/49] fix: grid cell averages on north-to-south grids are
 given to their own cells

---
 .../advanced_standard/fileio/output_structure_rectilinear.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..258dfcf 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,9 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
+        latitudes = numpy.tile(latitudes, (1,self.Nlon))
         
-        return latitudes[reindexer]#, longitudes
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From 10cdc919777e16cd746189de4fc2bc52d9af91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 18/49] fix: precision derivative of a wrapped lattice links
 neighbours across the wrap, as the precision does

---
 .../advanced_standard/stats/spde/lattice.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..cf944e8 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -663,14 +663,22 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+            
+            # neighbours must be linked exactly as in build_Q_native, including across wrapped dimensions
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
+            else:
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
+            inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
+            inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
+
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
             
-- 
2.43.0


From 6e2242c0005dce8d2ad5baa387d84a71f9416dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 19/49] fix: lattices may have a different number of nodes in
 each dimension

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index cf944e8..f6b86a4 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -143,12 +143,14 @@ class LatticeMesh(object):
         
         
         axis_coordinates = [np.linspace(this_dim[0], this_dim[1], n_nodes) for this_dim, n_nodes in zip(self.node_bounds.T, self.number_of_nodes_per_dimension )  ]
-        self.axis_coordinates = np.array(axis_coordinates).T
         
         if len(axis_coordinates) > 1:
+            # one array per dimension (the numbers of nodes may differ)
+            self.axis_coordinates = axis_coordinates
             meshgrid_nodes = np.meshgrid(*axis_coordinates, indexing='ij')
             self.nodes = np.array(meshgrid_nodes).T.reshape(-1,self.n_dims)
         else:
+            self.axis_coordinates = np.array(axis_coordinates).T
             self.nodes = self.axis_coordinates
 
         self.n_nodes = self.nodes.shape[0]
-- 
2.43.0


From 05dfddb08189507c048dfc8168585f595bda6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 20/49] fix: lattice precision links the nodes that are
 neighbours in the node order of the design matrix

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index f6b86a4..6723b1f 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -625,8 +625,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -681,8 +681,8 @@ class LatticeSPDE():
             inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From eb6ec63c661fe6755e22ef971334dd998262db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:55 +0000
Subject: [PATCH 21/49] fix: precision of fields on the sphere has the order of
 smoothness asked for

---
 .../analysis/advanced_standard/stats/spde/spherical.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..60f6fec 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -399,11 +399,11 @@ class SphereMeshSPDE(object):
         if alpha % 2 == 0:
             
             Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         else:
             Q = K
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         
         Q = tau * Q * tau
@@ -433,7 +433,7 @@ class SphereMeshSPDE(object):
             Q = K * inv_C_tilde * K
             dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
             
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
@@ -442,7 +442,7 @@ class SphereMeshSPDE(object):
         else:
             Q = K
             dQdp = dKdp
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-- 
2.43.0


From 07d42ea763365ee899d74dbb69dc4b5315417fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:32 +0000
Subject: [PATCH 22/49] fix: space-time factor design accepts the rectified
 argument that combinations pass to every element

---
 .../analysis/advanced_standard/elements/factor.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..c621d93 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,14 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A, time_A = self.space_A, self.time_A
+        if rectified:
+            space_A, time_A = abs(space_A), abs(time_A)
+
+        v_space = space_A.dot(currentstate[:space_A.shape[1]])
+        v_time = time_A.dot(currentstate[space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From 041c710750d994451ce596f552f19fb493fce4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 23/49] fix: traces and marginal variances refer to modules
 that were not imported

---
 src/eustace/analysis/advanced_standard/linalg/sparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/sparse.py b/src/eustace/analysis/advanced_standard/linalg/sparse.py
index 05f2251..941a09a 100644
--- a/src/eustace/analysis/advanced_standard/linalg/sparse.py
+++ b/src/eustace/analysis/advanced_standard/linalg/sparse.py
@@ -1,6 +1,8 @@
 """Sparse matrix operations"""
 
 import numpy
+import scipy.sparse
+from sksparse import cholmod
 import qinv
 
 def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
@@ -44,12 +46,10 @@ def marginal_variance_Q_inv(Q, A = None):
         # The following operation is only correct if the non zero indices of A.T * A are a subset of
         # the non-zero elements of Q_inv so check that this condition is true before proceeding. 
         
-        from sets import Set
-        
         (P_i, P_j, P_v) = scipy.sparse.find(Q_inv)
         (AtA_i, AtA_j, AtA_v) = scipy.sparse.find(A.T * A)
-        Q_inv_non_zero = Set( zip(P_i, P_j) )
-        AtA_non_zero = Set( zip(AtA_i, AtA_j) )
+        Q_inv_non_zero = set( zip(P_i, P_j) )
+        AtA_non_zero = set( zip(AtA_i, AtA_j) )
         
         AtA_non_zero.issubset(Q_inv_non_zero)
         
-- 
2.43.0


From 230d03d04c79951a92324d0b1658b2988a45edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 24/49] fix: nonlinear delayed component reads the
 linearisation point of the time it updates

---
 .../analysis/advanced_standard/components/spatialdelayed.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..03a9e8c 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -138,7 +138,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read(time_index))
 
             else:
 
-- 
2.43.0


From 9c96a58dbcf2fc49c84282a8498484b01878c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 25/49] fix: projection of samples failed on unused departures
 and on missing samples

---
 .../analysis/advanced_standard/fileio/output_projector.py     | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..c944ca6 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -171,8 +171,6 @@ class Projector(object):
         if statesample is None:
             return None
               
-        sampledepartures = statesample - self.state_solution
-        
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
         blocksize = int(n_outputs / self.blocking)
@@ -198,8 +196,6 @@ class Projector(object):
         else:
             statesample = self.state_samples
             sampledepartures = statesample#(statesample - self.state_solution)**2
-            print statesample.shape
-            print self.state_solution.shape
             
         if statesample is None:
             return None
-- 
2.43.0


From 368b87c5a0ea7875ba1ab531ec54490624a917b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:05 +0000
Subject: [PATCH 26/49] fix: nonlinear space-time component keeps its state a
 vector when moving the linearisation point

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 3fcef5e..58e8400 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -208,7 +208,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                linearisation_point = self.solutionstorage.state_read()
+                new_state_estimate = linearisation_point + state_update.reshape(linearisation_point.shape)
 
             else:
 
-- 
2.43.0


From 93245eafa31362cd607eb4a5de85b50d94b3719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:05 +0000
Subject: [PATCH 27/49] fix: delayed components compute, store and project the
 samples asked for

---
 .../advanced_standard/components/spatialdelayed.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 03a9e8c..923013f 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -29,7 +29,7 @@ class DelayedSpatialComponent(SpaceTimeComponent):
     
     def __init__(self, storage, solutionstorage, printstats=False, compute_uncertainties = False, method='EXACT', compute_sample=False, sample_size=1):
 
-        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method)
+        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method, compute_sample=compute_sample, sample_size=sample_size)
         
     def component_solution(self):
         
@@ -157,8 +157,8 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-                sample = numpy.squeeze(solution.random_sample(self.sample_size))
-                self.solutionstorage.state_sample_write(sample, time_index)
+                sample = solution.random_sample(self.sample_size)
+                self.solutionstorage.partial_state_sample_write(sample, time_index)
   
     def solution_observation_expected_value(self, observations):
 
@@ -202,7 +202,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
         time_index = observations.time_index()
 
         # Attempt to retrieve solution
-        state = self.solutionstorage.state_sample_read(time_index)
+        state = self.solutionstorage.partial_state_sample_read(time_index)
         
         # Return zeros if can't find it
         if state is None:
-- 
2.43.0


From 658bcd3cfb215c2ed4fd23d5487be796b1260111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 28/49] fix: outlier window statistics cover all rows and
 columns of the grid

---
 src/eustace/postprocess/outlier_check.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index 1424f71..787bf4b 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -179,8 +179,8 @@ def compute_window_mean(image, window_latitude, window_longitude, padmode_latitu
     
     rolling_mean = numpy.zeros(image_shape)
     
-    latitude_steps = image_shape[0] // blocksize_latitude
-    longitude_steps = image_shape[1] // blocksize_longitude
+    latitude_steps = int(numpy.ceil(float(image_shape[0]) / blocksize_latitude))
+    longitude_steps = int(numpy.ceil(float(image_shape[1]) / blocksize_longitude))
     
     
     for latitude_step in range(latitude_steps):
@@ -218,7 +218,7 @@ def block_iqr_by_range(latitudes, longitudes, data_array, range_km, max_latitude
     upper_quartile = numpy.zeros(data_array.shape) + numpy.nan
     
     # get number of blocks
-    n_blocks = int( numpy.ceil(len(latitudes) / latitude_block_size) )
+    n_blocks = int( numpy.ceil(float(len(latitudes)) / latitude_block_size) )
     
     # get grid resolutions
     latitude_grid_resolution = latitudes[1] - latitudes[0]
-- 
2.43.0


From ebd99382c297dec9d14f2fa306bc486585397171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 29/49] fix: meanings of QC flags in flag files match the bits
 in use

---
 src/eustace/postprocess/flags.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/flags.py b/src/eustace/postprocess/flags.py
index 32d3650..0185f15 100644
--- a/src/eustace/postprocess/flags.py
+++ b/src/eustace/postprocess/flags.py
@@ -15,7 +15,7 @@ import numpy
 FLAG_TYPE = numpy.uint16
 TYPE_NAME = 'u2'
 FLAG_MAX_N = 16
-FLAG_MAX_USED = 13
+FLAG_MAX_USED = 16
 NULL_FLAG = FLAG_TYPE(0)
 
 
@@ -63,6 +63,7 @@ FLAG_MEANINGS = ['day_constraint',
                  'areal_high_value_qc',
                  'extreme_low_value_qc',
                  'extreme_high_value_qc',
+                 'persistant_outlier_qc',
                  'marine_location_flag',
                  'location_low_value_qc',
                  'location_high_value_qc',
-- 
2.43.0


From 01658c5684a13356ccf4ca2baa5627c8661224ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:45 +0000
Subject: [PATCH 30/49] fix: refuse to merge a source with only one of its two
 files, which mispaired the files of the other sources

---
 src/eustace/outputformats/filesmerger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..e13eced 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,8 +20,13 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
-    for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
+    for index, elements in enumerate(list(zip(outputs_main,outputs_ancillary))):
         print(elements)
+        # a source with only one of its two files would shift the pairing of all the sources after it
+        available = [element is not None and os.path.isfile(element) for element in elements]
+        if available[0] != available[1]:
+            raise ValueError('Primary and ancillary files of a source must be either both available or both missing')
+
         if elements[0] is not None and os.path.isfile(elements[0]):
 	    number_of_sources += 1
 	else:
-- 
2.43.0


From 43df5756d59a3dfa9a496e3c97bf2e4cd69e4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:45 +0000
Subject: [PATCH 31/49] fix: merge sources of which one has no missing data
 with others that have some

---
 src/eustace/outputformats/filesmerger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index e13eced..6fb3af7 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -316,7 +316,8 @@ class FilesMerger(object):
     masked_array_field = handle.variables[name][...]
     masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    # a field without missing data has a mask of just one value: it is expanded, to be combined with those of other files
+    return masked_array_field.data,numpy.ma.getmaskarray(masked_array_field)
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From 319dc98befe0878d296916f81607259e959f831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 32/49] fix: file search: paths whose tags only concatenate to
 the same text are different

---
 src/eumopps/catalogue/namepatterns.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..d4696e8 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -63,10 +63,7 @@ def make_search_expression(pattern, knownvalues):
 
 def hash_string_list(values):
     """Create one hashkey corresponding to an entire list of strings."""
-    concat = ''
-    for value in values:
-        concat += value
-    return concat
+    return '\0'.join(values)
 
 
 def hash_string_dictionary(d):
-- 
2.43.0


From 75f976a9c1227038b6e1e70c96f06f1b54d45a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 33/49] fix: file search: characters of a tag stand for
 themselves when the tag is used again

---
 src/eumopps/catalogue/namepatterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index d4696e8..8952477 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -51,12 +51,12 @@ def make_search_expression(pattern, knownvalues):
     result = result.replace('?', '.')  # question marks match any character
     for key, subs in EXPRESSION_SUBSTITUTES.iteritems():
         lookupkey = '%' + key
-        result = result.replace(lookupkey, knownvalues[subs[0]]
+        result = result.replace(lookupkey, re.escape(knownvalues[subs[0]])
                                 if subs[0] in knownvalues else '(?P<' + subs[0] + '>' + subs[1] + ')')
     for subs in TAG_FIELDS:
         lookup_lowercase_subs = '%' + subs.lower()
         if subs in knownvalues:
-            result = result.replace(lookup_lowercase_subs, knownvalues[subs].lower())
+            result = result.replace(lookup_lowercase_subs, re.escape(knownvalues[subs].lower()))
     # print '\n\npattern: ', result, '\n\n'
     return result
 
-- 
2.43.0


From 666ae99b691844bda12c94d49d7137e0672f691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 34/49] fix: unused archive elements are a list of names, not a
 list of lists

---
 src/eumopps/catalogue/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/dataset.py b/src/eumopps/catalogue/dataset.py
index 6c585cd..9954a3c 100644
--- a/src/eumopps/catalogue/dataset.py
+++ b/src/eumopps/catalogue/dataset.py
@@ -128,7 +128,7 @@ class CatalogueDataSubset(object):
         """Append list of unused archive elements prefixed by archive name."""
 
         itemprefix = archivename + ':'
-        self.archive_unused.append([itemprefix + name for name in unused])
+        self.archive_unused.extend([itemprefix + name for name in unused])
 
 
 class CatalogueFileEntry(object):
-- 
2.43.0


From 36da4b6cf3c1c1beb12183b25469f23dc6c06d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 35/49] fix: building a catalogue restricted to one data set

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From 81f143e823bac6edd58d5ebcbcfeaa37ba6c3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 36/49] fix: land cells with Tmin above Tmax are removed also
 from fields without a missing cell

---
 src/eustace/surfaceairmodel/fileio/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/post_processing.py b/src/eustace/surfaceairmodel/fileio/post_processing.py
index 8f7b2f1..26eb8c4 100644
--- a/src/eustace/surfaceairmodel/fileio/post_processing.py
+++ b/src/eustace/surfaceairmodel/fileio/post_processing.py
@@ -13,6 +13,6 @@ def apply_land_post_processing(results, surface_dependent_variables):
 
     results['problematic_pixels_count'] = update_mask.sum()
     for variable in [TASMIN, TASMINUNCERTAINTY, TASMAX, TASMAXUNCERTAINTY]+surface_dependent_variables:
-      results[variable.name][:].mask = numpy.logical_or(results[variable.name][:].mask, update_mask)
-      results[variable.name][:].data[:] = results[variable.name][:].filled()
+      results[variable.name] = numpy.ma.masked_where(update_mask, results[variable.name])
+      results[variable.name].data[:] = results[variable.name].filled()
 
-- 
2.43.0


From fad24a831e69416c36ab2cd9e5d592def059656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 37/49] fix: command line of the land model

---
 src/eustace/surfaceairmodel/run_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index d629232..3e4e28e 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -175,7 +175,7 @@ def main():
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
 	      input_model_1=args.input_model1_parameters,input_model_2=args.input_model2_parameters,input_model_3=args.input_model3_parameters,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_satellite_land_day=args.inputday,input_satellite_land_night=args.inputnight,
 	      input_satellite_land_snow=args.inputsnow,
 	      input_satellite_land_mask_north=args.inputmasknord,input_satellite_land_mask_south=args.inputmasksouth,
 	      input_satellite_land_DEM=args.inputDEM,
-- 
2.43.0


From fc5d977456adb4fd39cc0c8937f599ac920ed822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 38/49] fix: command line of the ocean model

---
 src/eustace/surfaceairmodel/run_ocean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/run_ocean.py b/src/eustace/surfaceairmodel/run_ocean.py
index 69e66c0..1bbd8d9 100644
--- a/src/eustace/surfaceairmodel/run_ocean.py
+++ b/src/eustace/surfaceairmodel/run_ocean.py
@@ -119,8 +119,7 @@ def main():
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
-	      input_model_paramters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_model_parameters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
 	      input_satellite_ocean=args.input_satellite_ocean)
 
 if __name__ == '__main__':
-- 
2.43.0


From e315cf34e351c785cc3dd13b0fd03882bda60a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 39/49] fix: command line of the ice model

---
 src/eustace/surfaceairmodel/run_ice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_ice.py b/src/eustace/surfaceairmodel/run_ice.py
index f5bac57..65a3433 100644
--- a/src/eustace/surfaceairmodel/run_ice.py
+++ b/src/eustace/surfaceairmodel/run_ice.py
@@ -54,7 +54,7 @@ def main():
     args = parser.parse_args()
 
     # run it
-    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__).run()
+    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__)
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From f63c33799b95a9af8f978efd6dcc9e784a893104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 40/49] fix: the altitude adjustment was taken for the list of
 stations held out when there is none

---
 src/eustace/analysis/preparedailyfixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..b5f1615 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -37,7 +37,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
         if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
+            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment=altitude_adjustment)
         else:
             source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
         
-- 
2.43.0


From d9119c14d258bb4bdc94295bae3edf3330f343b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 41/49] fix: quality flags of stations apply to their own day,
 and with or without stations held out

---
 src/eustace/preprocess/fileio/insitu_land.py | 34 ++++++++------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..4098ad9 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -114,6 +114,7 @@ class ObservationSourceInsituLand(ObservationSource):
         # Restrict by time if requested
         if self.daynumber is None:
             measurement = variable[:]
+            qc_flags = qc_var[:]
         
         else:
             # argwhere - Finds the indices of array elements that are non-zero, grouped by element
@@ -124,34 +125,27 @@ class ObservationSourceInsituLand(ObservationSource):
                 # extract measurement by advanced index and slice  
                 measurement = variable[dayindex.ravel(), :]
                 time = time[dayindex]
-
-                # the mask is updated so True areas also represent areas where 
-                # qc flags have failed checks  
-                if qc_mask:
-                    # replicate method used for measurement to return data relating to specified day indices 
-                    qc_var_day = qc_var[dayindex.ravel(), :]
-                    # create a mask for areas where the qc flag values are not 0
-                    # this mask - True values - relates to all data that failed qc checks
-                    qc_data_mask = numpy.ma.masked_not_equal(qc_var_day, 0)
-                    # update the measurement mask to additionally mask out areas from the qc data mask, 
-                    # in addition to those areas already masked out
-                    measurement.mask = numpy.logical_or(
-                                       measurement.mask, qc_data_mask)
+                # replicate method used for measurement to return data relating to specified day indices 
+                qc_flags = qc_var[dayindex.ravel(), :]
 
             else:
                 return None                        
 
+        # the mask is updated so True areas also represent areas where 
+        # qc flags have failed checks  
+        if qc_mask:
+            # create a mask for areas where the qc flag values are not 0
+            # this mask - True values - relates to all data that failed qc checks
+            qc_data_mask = numpy.ma.masked_not_equal(qc_flags, 0)
+            # update the measurement mask to additionally mask out areas from the qc data mask, 
+            # in addition to those areas already masked out
+            measurement.mask = numpy.logical_or(
+                               measurement.mask, qc_data_mask)
+
         if self.hold_out_dataset:
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
-                                   
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From afb5f59908ccf314fb5d2b1084ca406bcc935854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 42/49] fix: one mask element for each reading of stations also
 if none is missing

---
 src/eustace/preprocess/fileio/insitu_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 4098ad9..629f42e 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -171,7 +171,7 @@ class ObservationSourceInsituLand(ObservationSource):
             
 
         return Observations(
-            measurement.mask.ravel(),
+            numpy.ma.getmaskarray(measurement).ravel(),
             all_time.ravel(),
             all_stations.ravel(),
             measurement.data.ravel().astype(numpy.float32),
-- 
2.43.0


From 302902e65880dc0d0fa4d1ef42c38dfc8bdd97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 43/49] fix: read a file with one reading of ships

---
 src/eustace/preprocess/fileio/insitu_ocean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_ocean.py b/src/eustace/preprocess/fileio/insitu_ocean.py
index 3f7a957..e3170cf 100644
--- a/src/eustace/preprocess/fileio/insitu_ocean.py
+++ b/src/eustace/preprocess/fileio/insitu_ocean.py
@@ -78,6 +78,9 @@ class ObservationSourceInsituOceanHadNMAT2(ObservationSource):
         textfile.seek(0)
         txtdata = numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None)
 
+        # a file with one row is read as a single record
+        txtdata = numpy.atleast_1d(txtdata)
+
         # build coordinates
         self.coords = numpy.vstack([ 
                 txtdata[HadNMAT2Format.LAT] * HadNMAT2Format.LOCATION_SCALE, 
-- 
2.43.0


From 2159571c5bea0b57b8cfa8e9ef6f14f63ad43082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 44/49] fix: read a file with one reading of lakes

---
 src/eustace/surfaceairmodel/fileio/lake.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..0c4cb5e 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,6 +43,9 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
+        # a file with one row is read as a single record
+        txtdata = numpy.atleast_1d(txtdata)
+
         # signatures for each location so we can spot duplicates
         location_signature = \
             numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-- 
2.43.0


From 6e48d57d97a29c6dd39c784995378b332ffe3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 45/49] fix: lakes at different places are different

---
 src/eustace/surfaceairmodel/fileio/lake.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 0c4cb5e..1abe6fe 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -46,18 +46,13 @@ class ObservationSourceLakeReading(ObservationSource):
         # a file with one row is read as a single record
         txtdata = numpy.atleast_1d(txtdata)
 
-        # signatures for each location so we can spot duplicates
-        location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
-
-        # find duplicate signatures
-        unique_signature, unique_indices, self.location_ids = numpy.unique(location_signature, return_index=True, return_inverse=True)
- 
-        # coordinates of unique signatures only
-        self.location_lookup = numpy.vstack([ 
-                txtdata[ObservationSourceLakeReading.COLUMN_LAT][unique_indices], 
-                txtdata[ObservationSourceLakeReading.COLUMN_LON][unique_indices] ])
+        # coordinates of every reading
+        coordinates = numpy.vstack([ 
+                txtdata[ObservationSourceLakeReading.COLUMN_LAT],
+                txtdata[ObservationSourceLakeReading.COLUMN_LON] ])
+
+        # unique coordinates and the location number of each reading
+        self.location_lookup, self.location_ids = numpy.unique(coordinates, return_inverse=True, axis=1)
 
         # get time
         self.time = txtdata[ObservationSourceLakeReading.COLUMN_DATETIME]
-- 
2.43.0


From 4c1224b0a44ecbc60d0a58ba6d49ebd263ad5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:39 +0000
Subject: [PATCH 46/49] fix: one mask element for each cell of a gridded
 product also if none is missing

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..6eaabb0 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -76,7 +76,7 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
             measurement.data.data.ravel(), 
-- 
2.43.0


From fd40bb78f559c649296bbeeeb996e97687cf3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:39 +0000
Subject: [PATCH 47/49] fix: merge sample times within the resolution on either
 side of midnight

---
 src/eustace/outputformats/stationdata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 2a7ed0a..2c7d374 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -139,9 +139,10 @@ class StationData(object):
     def get_unique_temperature_sample_times(self):
         """Array of unique times based on the MeasurementTime.RESOLUTION."""
 
-        result = [m.time for m in set(
-            [MeasurementTime(sample.time) for sample in self.temperature_samples])]
-        result.sort()
+        result = []
+        for time in sorted([sample.time for sample in self.temperature_samples]):
+            if not result or not (MeasurementTime(time) == MeasurementTime(result[-1])):
+                result.append(time)
         return result
 
     def get_temperature_samples(self, time_axis, variable):
-- 
2.43.0


From abbffc2d96f395b45f544d229c659401d8d2d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:39 +0000
Subject: [PATCH 48/49] fix: refuse samples of stations that are not described

---
 src/eustace/outputformats/stationdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 2c7d374..ad8fab2 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -167,6 +167,8 @@ class StationData(object):
         for sample in self.temperature_samples:
             station_index = self.descriptions.get_station_index(
                 sample.station_name)
+            if station_index is None:
+                raise ValueError('no description of station ' + sample.station_name)
             time_index = measurement_times.index(MeasurementTime(sample.time))
             value = sample.__dict__[variable.name]
             data[time_index][station_index] = value
-- 
2.43.0


From 43dd39c6b85fd15e0445503bcf405d044e07280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:39 +0000
Subject: [PATCH 49/49] fix: verification gives a verdict on attributes of
 other type or length than specified

---
 src/eustace/outputformats/verify/verify.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/verify/verify.py b/src/eustace/outputformats/verify/verify.py
index 93c525a..81b22e8 100644
--- a/src/eustace/outputformats/verify/verify.py
+++ b/src/eustace/outputformats/verify/verify.py
@@ -1,5 +1,6 @@
 """Verify output format against a defined specification."""
 
+import numpy
 from netCDF4 import Dataset
 
 
@@ -96,10 +97,7 @@ class Verifier(object):
                         outcome = False
                         if meta_key in ncvar.__dict__:
                             test_value = ncvar.__getattribute__(meta_key)
-                            if isinstance(meta_value, list):
-                                outcome = all(meta_value == test_value)
-                            else:
-                                outcome = (meta_value == test_value)
+                            outcome = numpy.array_equal(numpy.atleast_1d(meta_value), numpy.atleast_1d(test_value))
                         self.log_outcome(v.name + '.' + meta_key + '=' + str(meta_value), outcome)
 
     def check_dimensions(self, nc, expected):
-- 
2.43.0

