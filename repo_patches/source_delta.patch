From b24a25e74fea5e912372f6bdaf44e7d19d2854d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:53 +0000
Subject: [PATCH 01/13] fix: disabling velocity figures removes the velocity
 entry, not sedflux

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 7883cec3d6778fb439727725db06307d99d569b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 02/13] fix: accept an explicit null for parameters whose
 declared types include None

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..c1717ba 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -107,7 +107,9 @@ class init_tools(abc.ABC):
             if not type(v["type"]) is list:
                 default_dict[k]["type"] = [eval(v["type"])]
             else:
-                default_dict[k]["type"] = [eval(_v) for _v in v["type"]]
+                default_dict[k]["type"] = [
+                    type(None) if _v == "None" else eval(_v) for _v in v["type"]
+                ]
 
         # only access the user input file if provided.
         if self.input_file:
@@ -165,7 +167,9 @@ class init_tools(abc.ABC):
                 if not type(v["type"]) is list:
                     expected_type = [eval(v["type"])]
                 else:
-                    expected_type = [eval(_v) for _v in v["type"]]
+                    expected_type = [
+                        type(None) if _v == "None" else eval(_v) for _v in v["type"]
+                    ]
                 # evaluate against expected types
                 if type(user_dict[k]) in expected_type:
                     input_file_vars[k] = user_dict[k]
-- 
2.43.0


From 6c1adb581bb86d7760f61551cb08d98336f0a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 03/13] fix: restore the time since the last data save without
 truncating it

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index c1717ba..70dc37d 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -893,7 +893,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From c00fcafa18f215d3e56ab328650d5b29e21519d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 04/13] fix: keep variable attributes (units) when copying the
 output file on resume

---
 pyDeltaRCM/init_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 70dc37d..989b97f 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -980,12 +980,14 @@ class init_tools(abc.ABC):
                             dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
                             )
+                            dst[_mname].setncatts(variable.__dict__)
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
                         dst.createVariable(name, variable.datatype, variable.dimensions)
+                        dst[name].setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
                 # set object attribute for model
-- 
2.43.0


From cf240e4fb1e10f075d8eefa0e3310542fe066dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:34 +0000
Subject: [PATCH 05/13] fix: reinitialise the sediment routers when the bedload
 fraction changes

---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From 247f0e96791f52910bd13eb646c66983e6f917fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:48 +0000
Subject: [PATCH 06/13] fix: a looped parcel with no transport direction stays
 where it is

---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..73fafe6 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -974,6 +974,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 55c03f01245d3f7811b9b8f8d6ef6ad7fb5bc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:47 +0000
Subject: [PATCH 07/13] fix: input arguments override the input file of a
 single job

---
 pyDeltaRCM/preprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..c9c5a2c 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -48,6 +48,7 @@ class BasePreprocessor(abc.ABC):
         self._job_list = []  # list of _Job objects
 
         self._dryrun = False
+        self._cli_dict = {}  # input arguments, override the input file
 
         self._is_completed = False
 
@@ -607,6 +608,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # input arguments take precedence over the input file
+                    job_config.update(self._cli_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -648,6 +652,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # input arguments take precedence over the input file
+                    job_config.update(self._cli_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -973,6 +980,7 @@ class PreprocessorCLI(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1140,6 +1148,7 @@ class Preprocessor(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From 18f8d83507e1f61b211627941d551cac80811259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:47 +0000
Subject: [PATCH 08/13] fix: a dryrun given in the input file is honoured by
 the command line

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index c9c5a2c..2f73c43 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1079,6 +1079,9 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
+        if args_dict["dryrun"] is False:
+            # if not given remove the key from cli spec
+            args_dict.pop("dryrun")
 
         return args_dict
 
-- 
2.43.0


From 274dcb048d7062b9cb857003bbfbfe72cdcf3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 09/13] fix: every job runs from the random state its own seed
 produced

---
 pyDeltaRCM/preprocessor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 2f73c43..e489e0d 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -713,6 +713,8 @@ class _BaseJob(abc.ABC):
             DeltaModel = BaseDeltaModel
 
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
+        # the random state is shared by the process: keep the one of this job
+        self._rng_state = shared_tools.get_random_state()
         _curr_time = self.deltamodel._time
 
         # process If
@@ -798,6 +800,8 @@ class _SerialJob(_BaseJob):
         """
         # try to initialize and run the model
         try:
+            # restore the random state of this job
+            shared_tools.set_random_state(self._rng_state)
             # run the simulation
             while self.deltamodel._time < self._job_end_time:
                 self.deltamodel.update()
@@ -885,6 +889,8 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
         try:
             # try to initialize and run the model
             try:
+                # restore the random state of this job
+                shared_tools.set_random_state(self._rng_state)
                 # initialize the output files (defer_output=True above)
                 # unless resuming from checkpoint, then load the checkpoint
                 if self.deltamodel.resume_checkpoint:
-- 
2.43.0


From 1abaeb2a8a1a0ca9cf45a5b99254b4786b114388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:48 +0000
Subject: [PATCH 10/13] fix: a parallel job resuming from a checkpoint runs the
 hook before loading it

---
 pyDeltaRCM/preprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e489e0d..86cf59d 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -896,6 +896,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                 if self.deltamodel.resume_checkpoint:
                     # here we set defer output to false when loading the
                     #   checkpoint on this thread
+                    self.deltamodel.hook_load_checkpoint()
                     self.deltamodel.load_checkpoint(defer_output=False)
                 else:
                     # infrastructure deferred, need to trigger manually
-- 
2.43.0


From 56d10c1340893dc54b2ee3013776e166b22315e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:36 +0000
Subject: [PATCH 11/13] fix: never route sediment parcels upstream out of the
 domain

When no weighted choice exists for a parcel in the inlet row, the inverse
distance fallback included the padding above the domain, and the parcel
continued at row -1, i.e. at the downstream edge.
---
 pyDeltaRCM/sed_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..bc01789 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -266,6 +266,9 @@ def _get_weight_at_cell_sediment(
     """
     dry = depth_nbrs <= dry_depth
     wall = ct_nbrs == -2
+    if ind[0] == 0:
+        # there is no domain upstream of the inlet row
+        wall[:3] = True
     ctr = np.arange(9) == 4
     drywall = np.logical_or(dry, wall)
 
-- 
2.43.0


From 7883a39fa3f6ea31a6fab9ac4b69a07223c3c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:36 +0000
Subject: [PATCH 12/13] fix: flood shore cells only from wet neighbors

Dry neighbors (and cells outside of the domain) were given a stage of zero,
which is above the bed when sea level is below zero, so emerged cells were
flooded to elevation zero.
---
 pyDeltaRCM/water_tools.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 73fafe6..4650b45 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,16 +543,13 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
-            #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
-            )
+            # only the stage of wet neighbor cells can flood the cell
+            stage_nh = stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            stage_nh = stage_nh[wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0]
 
             if (stage_nh > eta_shore[i]).any():
                 self.stage[shore_ind[0][i], shore_ind[1][i]] = max(stage_nh)
-- 
2.43.0


From 617313a7070b74aa712edae71092157e58fdcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:22 +0000
Subject: [PATCH 13/13] fix: job table values follow the header when set
 entries order their keys differently

---
 pyDeltaRCM/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 86cf59d..b703fe4 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -379,7 +379,10 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            #   in the order of the output table header
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0

