From 640f67bc9f262164961dac8f9e6120b1392dd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 01/29] fix: relocate looped water parcel when it has no
 mean-transport vector

When a parcel loops at the origin of the mean-transport vector, the vector
length is zero and the relocated position was never assigned: it was stale
(from another parcel) or uninitialized.
---
 pyDeltaRCM/water_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..45f13a0 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -977,6 +977,10 @@ def _check_for_loops(
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
+                    else:
+                        # no mean-transport vector, so parcel is not moved
+                        px = px0
+                        py = py0
 
                     # limit the new px and py to beyond the inlet, and
                     #   away from domain edges
-- 
2.43.0


From 5c29ae832ba4edb43dd686a6a4dbc6e55e9fdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:31 +0000
Subject: [PATCH 02/29] fix: accept an explicit null for parameters whose type
 allows None

The type 'None' in the defaults evaluates to the object None, never to its
type, so writing a null explicitly (e.g. hb, seed, stepmax), or having the
preprocessor write one into a job file, raised a TypeError.
---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..0082be3 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -137,7 +137,9 @@ class init_tools(abc.ABC):
         for k, v in default_dict.items():
             if k in user_dict:
                 expected_type = v["type"]
-                if type(user_dict[k]) in expected_type:
+                if (type(user_dict[k]) in expected_type) or (
+                    user_dict[k] is None and None in expected_type
+                ):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
@@ -167,7 +169,9 @@ class init_tools(abc.ABC):
                 else:
                     expected_type = [eval(_v) for _v in v["type"]]
                 # evaluate against expected types
-                if type(user_dict[k]) in expected_type:
+                if (type(user_dict[k]) in expected_type) or (
+                    user_dict[k] is None and None in expected_type
+                ):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
-- 
2.43.0


From 38597810aef757b7700045a9c929e37b32924454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 03/29] fix: restore the time since last save exactly when
 resuming

The elapsed time was truncated to an integer, so the save schedule of a
resumed run could slip with respect to the uninterrupted run.
---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0082be3..c4704c9 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -893,7 +893,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 2a5b7fcc839c3880535e048de77f4c28b0ed482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 04/29] fix: keep variable attributes (units) in the netCDF
 file when resuming

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index c4704c9..e021528 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -977,15 +977,19 @@ class init_tools(abc.ABC):
                         dst.createGroup(name)
                         for vname, variable in src.groups[name].variables.items():
                             _mname = name + "/" + vname
-                            dst.createVariable(
+                            _v = dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
                             )
+                            _v.setncatts(variable.__dict__)
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
-                        dst.createVariable(name, variable.datatype, variable.dimensions)
+                        _v = dst.createVariable(
+                            name, variable.datatype, variable.dimensions
+                        )
+                        _v.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
                 # set object attribute for model
-- 
2.43.0


From da70932546b88e24c6335432d4bd54e840337902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 05/29] fix: keep saving custom variables and figures after
 resuming

The documented way to add output is hook_init_output_file, but it was not
called when an existing netCDF file is reopened from a checkpoint, so the
custom output silently stopped at the resume.
---
 pyDeltaRCM/init_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index e021528..662b1a4 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -955,7 +955,8 @@ class init_tools(abc.ABC):
                 _msg = "Creating NetCDF4 output file"
                 self.log_info(_msg, verbosity=2)
 
-                # populate default metadata list
+                # populate custom save lists, then the default metadata list
+                self.hook_init_output_file()
                 if self._save_metadata:
                     self.init_metadata_list()
 
-- 
2.43.0


From 945527e5ebdc6d73ff71de77cbb83ea4e71aae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 06/29] fix: do not lose the netCDF output when killed while
 resuming

The output file was renamed away before its copy was complete: a kill in
between left no file (or a partial one) at the expected location, and the
next resume started over or overwrote the only complete copy.
---
 pyDeltaRCM/init_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 662b1a4..7b64097 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -946,10 +946,10 @@ class init_tools(abc.ABC):
                     )
                 # if not open elsewhere, then proceed
                 # rename the old netCDF4 file
+                #   (replaced in one step, once its copy is complete)
                 _msg = "Renaming old NetCDF4 output file"
                 self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "old_pyDeltaRCM_output.nc")
-                os.rename(file_path, _tmp_name)
+                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
@@ -961,8 +961,8 @@ class init_tools(abc.ABC):
                     self.init_metadata_list()
 
                 # copy data from old netCDF4 into new one
-                with Dataset(_tmp_name) as src, Dataset(
-                    file_path, "w", format="NETCDF4"
+                with Dataset(file_path) as src, Dataset(
+                    _tmp_name, "w", format="NETCDF4"
                 ) as dst:
                     # copy attributes
                     for name in src.ncattrs():
@@ -993,14 +993,14 @@ class init_tools(abc.ABC):
                         _v.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
+                # replace the old netCDF4 file
+                os.replace(_tmp_name, file_path)
+
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-                # delete old netCDF4 file
-                os.remove(_tmp_name)
-
         _msg = "Successfully loaded checkpoint."
         self.log_info(_msg, verbosity=1)
-- 
2.43.0


From 18e290cde75cc2673e13211d0fef48c267b3229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 07/29] fix: replace the checkpoint file atomically

The only checkpoint was overwritten in place, so a run killed while saving
left nothing to resume from.
---
 pyDeltaRCM/iteration_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 6e51731..1a7f684 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -468,8 +468,10 @@ class iteration_tools(abc.ABC):
             rng_state_list, dtype=object
         )  # convert to object before saving
 
+        # write aside, so a complete checkpoint is on disk at all times
+        tmp_file = os.path.join(self.prefix, "new_checkpoint.npz")
         np.savez_compressed(
-            ckp_file,
+            tmp_file,
             # time and counter variables
             time=self.time,
             time_iter=self._time_iter,
@@ -491,3 +493,4 @@ class iteration_tools(abc.ABC):
             H_SL=self._H_SL,
             rng_state=rng_state,
         )
+        os.replace(tmp_file, ckp_file)
-- 
2.43.0


From 0dcf2b6153be29065afa4e09e14b147020e69729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:34 +0000
Subject: [PATCH 08/29] fix: run exactly the number of timesteps requested

The end of the job was compared with the accumulated model time, which is
subject to round-off, so a job could run one timestep too many.
---
 pyDeltaRCM/preprocessor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..e38df28 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -708,6 +708,9 @@ class _BaseJob(abc.ABC):
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
         _curr_time = self.deltamodel._time
 
+        # number of the last timestep, if the duration is given in timesteps
+        self._job_end_iter = None
+
         # process If
         if "If" in config_dict.keys():
             self._If = float(config_dict["If"])
@@ -724,6 +727,7 @@ class _BaseJob(abc.ABC):
             self._job_end_time = _curr_time + (
                 (config_dict["timesteps"] * self.deltamodel._dt)
             )
+            self._job_end_iter = self.deltamodel._time_iter + config_dict["timesteps"]
 
         elif "time" in config_dict.keys():
             # fill informational fields
@@ -748,6 +752,13 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+    def _has_time_remaining(self) -> bool:
+        """Whether the job needs to run (at least) another timestep."""
+        if self._job_end_iter is not None:
+            # counted, because the accumulated time is subject to round-off
+            return self.deltamodel._time_iter < self._job_end_iter
+        return self.deltamodel._time < self._job_end_time
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -792,7 +803,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while self._has_time_remaining():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -896,7 +907,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while self._has_time_remaining():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From e8bc37b3531b54f98caf9d3baa3dcc52fceeca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:34 +0000
Subject: [PATCH 09/29] fix: run every job with its own random seed

All jobs share one random number generator, seeded as each model is
created. In serial, all models are created before the first one runs, and
in parallel the generator is reinitialized in the new process: in both
cases jobs did not follow the seed (or checkpoint) of their configuration.
---
 pyDeltaRCM/preprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e38df28..2a695c7 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -708,6 +708,10 @@ class _BaseJob(abc.ABC):
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
         _curr_time = self.deltamodel._time
 
+        # the random number generator is shared by all jobs, so keep the state
+        #   this model was initialized with (seed or checkpoint) for its run
+        self._rng_state = shared_tools.get_random_state()
+
         # number of the last timestep, if the duration is given in timesteps
         self._job_end_iter = None
 
@@ -800,6 +804,9 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        # start from the random state of this job, not of the last one
+        shared_tools.set_random_state(self._rng_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
@@ -889,6 +896,9 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
         try:
             # try to initialize and run the model
             try:
+                # random state is not inherited by the process of the job
+                shared_tools.set_random_state(self._rng_state)
+
                 # initialize the output files (defer_output=True above)
                 # unless resuming from checkpoint, then load the checkpoint
                 if self.deltamodel.resume_checkpoint:
-- 
2.43.0


From 11d23bbdb593cf4dc658ae2b851c193ea5175fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 10/29] fix: command line and keyword durations override the
 configuration file

For a single job, the configuration file was applied again on top of the
arguments when the job was started, so the documented precedence of the
command line (e.g. --timesteps) was lost.
---
 pyDeltaRCM/preprocessor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 2a695c7..1ec6205 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -49,6 +49,8 @@ class BasePreprocessor(abc.ABC):
 
         self._dryrun = False
 
+        self._cli_dict = {}  # command line (or keyword) arguments
+
         self._is_completed = False
 
     @property
@@ -82,6 +84,11 @@ class BasePreprocessor(abc.ABC):
         """
         return self._job_list
 
+    @property
+    def _is_multijob(self) -> bool:
+        """Whether job files are written from an expanded configuration."""
+        return self._has_ensemble or self._has_set or self._has_matrix
+
     def open_input_file_to_dict(self, input_file: Union[str, Path]):
         """Open an input file and convert it to a dictionary.
 
@@ -607,6 +614,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not self._is_multijob:
+                    # the file does not include the command line arguments
+                    job_config.update(self._cli_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -648,6 +658,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not self._is_multijob:
+                    # the file does not include the command line arguments
+                    job_config.update(self._cli_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -994,6 +1007,7 @@ class PreprocessorCLI(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1161,6 +1175,7 @@ class Preprocessor(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From 97f85d34ff696a063ef9e1278810be7aa5bfe1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 11/29] fix: list set parameters in the column of their name

The columns of the jobs table were filled in the key order of each set, but
named in the key order of the first one.
---
 pyDeltaRCM/preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 1ec6205..9611979 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -385,7 +385,9 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From a232f695f24cda170fac523f0abe41eb5c49e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 12/29] fix: write strings to job files such that they are read
 back as strings

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9611979..e803db4 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1219,6 +1219,9 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         """Write each line, formatted."""
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
+        elif isinstance(varvalue, str):
+            # quoted if needed, to be read as the same string
+            f.write(yaml.safe_dump({varname: varvalue}, width=float("inf")))
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From ab0fd9ea2dab2222ef97b59991eb5b2ceee1c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 13/29] fix: disable velocity figures, not sediment flux
 figures

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 3012445e471446d4555af99092db067601ea9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:16 +0000
Subject: [PATCH 14/29] fix: read job reports while waiting for parallel jobs

A process does not end before its messages have been read, so joining all
jobs before reading any message never returned when the messages did not
fit the pipe (many jobs, or long error messages).
---
 pyDeltaRCM/preprocessor.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e803db4..9389b6e 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -4,6 +4,7 @@ import itertools
 import multiprocessing
 import os
 import platform
+import threading
 import time
 import warnings
 import yaml
@@ -632,21 +633,32 @@ class BasePreprocessor(abc.ABC):
                 self._job_list.append(p)
                 p.start()
 
+            def _report_queue():
+                # read from the queue and report (asynchronous...buggy...)
+                while not q.empty():
+                    gotq = q.get()
+                    if gotq["code"] == 1:
+                        print("Job {job} ended in error:\n {msg}".format_map(gotq))
+                    else:
+                        print(
+                            "Job {job} returned code {code} "
+                            "for stage {stage}.".format_map(gotq)
+                        )
+
             # join processes to prevent ending the jobs before moving forward
-            for i in self._job_list:
-                i.join()
+            #   a process only ends once its messages are read from the queue
+            def _join_jobs():
+                for i in self._job_list:
+                    i.join()
+
+            joiner = threading.Thread(target=_join_jobs)
+            joiner.start()
+            while joiner.is_alive():
+                _report_queue()
+                joiner.join(timeout=0.1)
 
-            # read from the queue and report (asynchronous...buggy...)
             time.sleep(1)
-            while not q.empty():
-                gotq = q.get()
-                if gotq["code"] == 1:
-                    print("Job {job} ended in error:\n {msg}".format_map(gotq))
-                else:
-                    print(
-                        "Job {job} returned code {code} "
-                        "for stage {stage}.".format_map(gotq)
-                    )
+            _report_queue()
 
         # if the parallel flag is False (default)
         elif _parallel_flag is False:
-- 
2.43.0


From 7be4e19e8a456a1bb571c06977df0d91845d4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:00 +0000
Subject: [PATCH 15/29] fix: never route parcels upstream of the inlet, out of
 the domain

The last-resort random walk (no wet neighbours) allowed a parcel in the
first row to step to row -1, which wraps around to the last row of the
fields, and allowed a water parcel to step onto itself, which ends it in
place.
---
 pyDeltaRCM/sed_tools.py   | 4 ++++
 pyDeltaRCM/water_tools.py | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..6182146 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -297,6 +297,10 @@ def _get_weight_at_cell_sediment(
         # disallow movement into walls
         weight[wall] = 0
 
+        # disallow movement out of the domain, upstream of the inlet
+        if ind[0] == 0:
+            weight[:3] = 0
+
     weight[ctr] = 0  # enforce
 
     # sanity check
diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 45f13a0..15a7577 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -684,11 +684,11 @@ def _get_weight_at_cell_water(
             else:
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
-                #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                #    allow to walk into any valid non-land cell, true random
+                nvalid = np.sum(~invalid)
                 weight[:] = 0
-                if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                if nvalid > 0:
+                    weight[~invalid] = 1 / nvalid
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From c51b5e6c6e306dad93a5b854e13bca76e28d4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:07 +0000
Subject: [PATCH 16/29] fix: dry shore cells are flooded from wet neighbors
 only

A dry or missing neighbor counted as a wet one with stage zero, which flooded
dry cells below zero elevation up to zero when the sea level is negative.
---
 pyDeltaRCM/water_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 15a7577..695f505 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,15 +543,16 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
+            # pretends dry neighbor cells have the lowest possible stage
             #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            stage_nh = np.where(
+                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0,
+                stage_nhs[:, shore_ind[0][i], shore_ind[1][i]],
+                -np.inf,
             )
 
             if (stage_nh > eta_shore[i]).any():
-- 
2.43.0


From b0db20fab13d23bac19b874f66f2a0f3ce450a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:07 +0000
Subject: [PATCH 17/29] fix: changing the bedload fraction changes the sand
 transport capacity

The sand router kept the bedload fraction it was created with.
---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From 72db3e1d01c910a826161ad2ac7dada79850dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:07 +0000
Subject: [PATCH 18/29] fix: keep the subsidence rate when boundary conditions
 change the time step

Setting the channel velocity, width, depth or the sediment concentration
changes the time step, but the subsidence per time step was left as it was.
---
 pyDeltaRCM/model.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 5369515..e941561 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1421,6 +1421,16 @@ class DeltaModel(
         """Number of times data has been saved."""
         return self._save_iter
 
+    def _update_boundary_conditions(self) -> None:
+        """Recompute everything that depends on the boundary conditions."""
+        old_time_step = self._dt
+        self.create_boundary_conditions()
+
+        if self.toggle_subsidence:
+            self.sigma = (self.sigma / old_time_step) * self._dt
+
+        self.init_sediment_routers()
+
     @property
     def channel_flow_velocity(self) -> float:
         """Get channel flow velocity."""
@@ -1429,8 +1439,7 @@ class DeltaModel(
     @channel_flow_velocity.setter
     def channel_flow_velocity(self, new_u0: float) -> None:
         self.u0 = new_u0
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def channel_width(self) -> float:
@@ -1440,8 +1449,7 @@ class DeltaModel(
     @channel_width.setter
     def channel_width(self, new_N0_meters: float) -> None:
         self.N0_meters = new_N0_meters
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
         if self.channel_width != new_N0_meters:
             warnings.warn(
                 UserWarning(
@@ -1459,8 +1467,7 @@ class DeltaModel(
     @channel_flow_depth.setter
     def channel_flow_depth(self, new_d) -> None:
         self.h0 = new_d
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_mean_elevation(self) -> float:
@@ -1498,8 +1505,7 @@ class DeltaModel(
     @influx_sediment_concentration.setter
     def influx_sediment_concentration(self, new_C0: float) -> None:
         self.C0_percent = new_C0 * 100
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_elevation(self):
-- 
2.43.0


From 1794248e4cf92707dafaede16e4ade4d3239cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:07 +0000
Subject: [PATCH 19/29] fix: keep the diffusion coefficient when the time step
 is set

The topographic diffusion per time step was left as it was.
---
 pyDeltaRCM/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index e941561..67a09ed 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1391,6 +1391,10 @@ class DeltaModel(
         if self.toggle_subsidence:
             self.sigma = (self.sigma / self._dt) * new_time_step
 
+        self.diffusion_multiplier = (
+            self.diffusion_multiplier / self._dt
+        ) * new_time_step
+
         self._dt = new_time_step
         self.init_sediment_routers()
 
-- 
2.43.0


From 8a2d01068987a54c28e53237a59fd3e1643b7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:07 +0000
Subject: [PATCH 20/29] fix: an index one past the end of the array is out of
 bounds

---
 pyDeltaRCM/shared_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 8afb406..27abd9c 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i > (shape[1] * shape[0]):
+    if i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
@@ -327,7 +327,7 @@ def custom_ravel(tup: Tuple[int, int], shape: Tuple[int, int]) -> int:
         >>> custom_ravel((25, 124), _shape)
         5124
     """
-    if tup[0] > shape[0] or tup[1] > shape[1]:
+    if tup[0] >= shape[0] or tup[1] >= shape[1]:
         raise IndexError("Index is out of array bounds")
     x = tup[0] * shape[1]
     y = tup[1]
-- 
2.43.0


From f2f0e77507b932c9222cf7954dfec8050af8d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:35 +0000
Subject: [PATCH 21/29] fix: do not add ensemble seeds to the matrix given by
 the user

---
 pyDeltaRCM/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9389b6e..6ace564 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -323,8 +323,8 @@ class BasePreprocessor(abc.ABC):
             for i in range(n_ensembles):
                 seed_list.append(np.random.randint((2**32) - 1, dtype="u8"))
 
-            # add list of random seeds to the matrix
-            _matrix["seed"] = seed_list
+            # add list of random seeds to the matrix (not to the user's object)
+            _matrix = {**_matrix, "seed": seed_list}
 
             # write it back to the total configuration
             self.config_dict["matrix"] = _matrix
-- 
2.43.0


From 28199a99364a7c21b9dcd7b5a38a3d276710528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:26 +0000
Subject: [PATCH 22/29] fix: parcels can walk when limited to fewer than four
 steps

---
 pyDeltaRCM/init_tools.py  | 2 +-
 pyDeltaRCM/water_tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 7b64097..7ad0c7e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -451,7 +451,7 @@ class init_tools(abc.ABC):
             self.stepmax = int(self.stepmax)
 
         # initial width of self.free_surf_walk_indices
-        self.size_indices = int(self.stepmax / 2)
+        self.size_indices = max(1, int(self.stepmax / 2))
 
         self._dt = self.dVs / self.Qs0  # time step size
 
diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 695f505..b803b89 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -357,7 +357,7 @@ class water_tools(abc.ABC):
             self.log_info(_msg, verbosity=2)
 
             indices_blank = np.zeros(
-                (int(self._Np_water), int(self.stepmax / 4)), dtype=int
+                (int(self._Np_water), max(1, int(self.stepmax / 4))), dtype=int
             )
 
             self.free_surf_walk_inds = np.hstack(
-- 
2.43.0


From 997dada31b8cc99601f2d2557542ba8bff90fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:49 +0000
Subject: [PATCH 23/29] fix: show_line accepts a list of indices and returns
 every line drawn

---
 pyDeltaRCM/debug_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/debug_tools.py b/pyDeltaRCM/debug_tools.py
index 95c3832..a5fd902 100644
--- a/pyDeltaRCM/debug_tools.py
+++ b/pyDeltaRCM/debug_tools.py
@@ -172,12 +172,16 @@ class debug_tools(abc.ABC):
 
         """
         _shape = self.depth.shape
+        if isinstance(ind, list) and not any(isinstance(i, np.ndarray) for i in ind):
+            # one line, given as a list of flat indices or a list of tuples
+            ind = np.array(ind)
         if isinstance(ind, list):
+            lines = []
             for _, iind in enumerate(ind):
                 _l = plot_line(
                     iind.flatten(), shape=_shape, nozeros=nozeros, *args, **kwargs
                 )
-                lines = [_l]
+                lines.append(_l)
         elif isinstance(ind, np.ndarray):
             if ind.ndim > 2:
                 raise NotImplementedError("Not implemented for arrays > 2d.")
-- 
2.43.0


From d15f61ca3de7867885d0b04932a19e06509f1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 24/29] fix: figures and checkpoints follow the output folder,
 not the working folder

---
 pyDeltaRCM/init_tools.py      | 6 +++---
 pyDeltaRCM/iteration_tools.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 7ad0c7e..36baedb 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -653,7 +653,7 @@ class init_tools(abc.ABC):
             self.init_metadata_list()
 
         if self._save_metadata or self._save_any_grids:
-            directory = self.prefix
+            directory = self.prefix_abspath
             filename = "pyDeltaRCM_output.nc"
 
             file_path = os.path.join(directory, filename)
@@ -918,7 +918,7 @@ class init_tools(abc.ABC):
         if (self._save_any_grids or self._save_metadata) and not defer_output:
             # check if the file exists already
             #    if it does, it needs to be flushed of certain fields
-            file_path = os.path.join(self.prefix, "pyDeltaRCM_output.nc")
+            file_path = os.path.join(self.prefix_abspath, "pyDeltaRCM_output.nc")
             if not os.path.isfile(file_path):
                 _msg = (
                     "NetCDF4 output file not found, but was expected. "
@@ -949,7 +949,7 @@ class init_tools(abc.ABC):
                 #   (replaced in one step, once its copy is complete)
                 _msg = "Renaming old NetCDF4 output file"
                 self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
+                _tmp_name = os.path.join(self.prefix_abspath, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 1a7f684..b7b97f3 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -268,7 +268,7 @@ class iteration_tools(abc.ABC):
                         _fig = self.make_figure(self._save_fig_list[f][0], self._time)
                         self.save_figure(
                             _fig,
-                            directory=self.prefix,
+                            directory=self.prefix_abspath,
                             filename_root=f + "_",
                             save_iter=self.save_iter,
                         )
@@ -460,7 +460,7 @@ class iteration_tools(abc.ABC):
         with either a frequency of `checkpoint_dt` or `save_dt` if
         `checkpoint_dt` has not been explicitly defined.
         """
-        ckp_file = os.path.join(self.prefix, "checkpoint.npz")
+        ckp_file = os.path.join(self.prefix_abspath, "checkpoint.npz")
 
         # get rng state
         rng_state_list = shared_tools.get_random_state()
@@ -469,7 +469,7 @@ class iteration_tools(abc.ABC):
         )  # convert to object before saving
 
         # write aside, so a complete checkpoint is on disk at all times
-        tmp_file = os.path.join(self.prefix, "new_checkpoint.npz")
+        tmp_file = os.path.join(self.prefix_abspath, "new_checkpoint.npz")
         np.savez_compressed(
             tmp_file,
             # time and counter variables
-- 
2.43.0


From 0c4725b359e526cbbd2158398c3fe4bf77f9efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 25/29] fix: a basin depth of zero is used as given

---
 pyDeltaRCM/init_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 36baedb..c5ed3e2 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -484,7 +484,9 @@ class init_tools(abc.ABC):
         self.log_info(_msg, verbosity=1)
 
         # resolve any boundary conditions
-        self._hb = self.hb or self.h0  # basin depth
+        # basin depth, that of the inlet channel if not given
+        if self._hb is None:
+            self._hb = self._h0
 
         # ---- coordinates ----
         self.xc = np.arange(0, self.L) * self._dx
-- 
2.43.0


From 07bab3181f6c878741679dd1186662392277a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:08 +0000
Subject: [PATCH 26/29] fix: refuse negative indices in custom_ravel and
 custom_unravel

---
 pyDeltaRCM/shared_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 27abd9c..9278f11 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i >= (shape[1] * shape[0]):
+    if i < 0 or i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
@@ -327,7 +327,7 @@ def custom_ravel(tup: Tuple[int, int], shape: Tuple[int, int]) -> int:
         >>> custom_ravel((25, 124), _shape)
         5124
     """
-    if tup[0] >= shape[0] or tup[1] >= shape[1]:
+    if tup[0] < 0 or tup[1] < 0 or tup[0] >= shape[0] or tup[1] >= shape[1]:
         raise IndexError("Index is out of array bounds")
     x = tup[0] * shape[1]
     y = tup[1]
-- 
2.43.0


From facb559c069c6b72b3b9e0d369df75c8e98eebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:08 +0000
Subject: [PATCH 27/29] fix: close the log file when a model is finalized

Finalizing is documented to close the files of the model, but the log file stayed
open for the life of the process, so that one file descriptor was lost per model
(and per serial job).
---
 pyDeltaRCM/model.py        | 4 ++++
 pyDeltaRCM/preprocessor.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 67a09ed..450d35c 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -245,6 +245,10 @@ class DeltaModel(
 
         self._is_finalized = True
 
+        # release the log file (anything logged later reopens it)
+        for handler in self.logger.handlers:
+            handler.close()
+
     @property
     def out_dir(self) -> str:
         """
diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 6ace564..4461a24 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -880,6 +880,10 @@ class _SerialJob(_BaseJob):
             _msg = ", ".join(["job: " + str(self.i), "stage: " + "2", "code: " + "0"])
             self.deltamodel.logger.info(_msg)
 
+        # the messages above have reopened the log file
+        for handler in self.deltamodel.logger.handlers:
+            handler.close()
+
 
 class _ParallelJob(_BaseJob, multiprocessing.Process):
     """Parallel job run by the preprocessor.
-- 
2.43.0


From e3bc764bd5475c8fe6c4384063de2ba1933444d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 28/29] fix: a configuration file without any entry (empty or
 only comments) was not accepted

---
 pyDeltaRCM/init_tools.py   | 2 +-
 pyDeltaRCM/preprocessor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index c5ed3e2..4a36a86 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -113,7 +113,7 @@ class init_tools(abc.ABC):
         if self.input_file:
             try:
                 user_file = open(self.input_file, mode="r")
-                user_dict = yaml.load(user_file, Loader=loader)
+                user_dict = yaml.load(user_file, Loader=loader) or dict()
                 user_file.close()
             except ValueError as e:
                 raise e
diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 4461a24..687be89 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -209,7 +209,7 @@ class BasePreprocessor(abc.ABC):
 
             # open the file with the loader
             user_file = open(input_file, mode="r")
-            yaml_dict = yaml.load(user_file, Loader=loader)
+            yaml_dict = yaml.load(user_file, Loader=loader) or {}
             user_file.close()
             return yaml_dict
 
-- 
2.43.0


From 9acd5debfbd721dbf0a9fd5caf0d0b40c57a2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 29/29] fix: finalizing a model again reopened its log file and
 left it open

---
 pyDeltaRCM/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 450d35c..8d62834 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -227,12 +227,12 @@ class DeltaModel(
         -------
 
         """
-        _msg = "Finalize the model run"
-        self.log_info(_msg)
-
         if self._is_finalized:
             raise RuntimeError("Cannot finalize model, " "model already finalized!")
 
+        _msg = "Finalize the model run"
+        self.log_info(_msg)
+
         try:
             self.output_netcdf.close()
             _msg = "Closed output NetCDF4 file"
-- 
2.43.0

