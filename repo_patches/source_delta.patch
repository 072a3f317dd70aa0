From e17213be1e25a7f4d8c1939dadaa76ab51feefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 01/17] fix: measure the requested number of devices of circuit
 parameters

The sample limit was applied to the lot axis instead of the device axis, so lots went missing when a test had
more lots than devices, and inputs with more devices than are measured could not be combined.
---
 gerabaldi/models/devices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..0e9f683 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1175,13 +1175,13 @@ class CircPrmMdl(LatentMdl):
         arg_vals = {}
         for arg in self.compute_args:
             if arg in latents:
-                arg_vals[arg] = latents[arg]
+                arg_vals[arg] = latents[arg][:, :, :num_samples]
             elif arg in strs_conds:
                 arg_vals[arg] = strs_conds[arg]
             elif arg in degraded_prm_vals:
-                arg_vals[arg] = degraded_prm_vals[arg]
+                arg_vals[arg] = degraded_prm_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From d26795f7787a7c06e02248984987d2eb9e290517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 02/17] fix: initialize device parameters that a test does not
 measure

The fallback sample count was set only after the count had already been looked up, so any parameter missing from
the measurements raised a KeyError.
---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 0e9f683..1ff2743 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1305,16 +1305,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From 3087947f07bcba2e4fd21d06e940b4fb5da5f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 03/17] fix: honour a test seed of zero

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From 4eafc58d277d13b00f397e9070d520ec38fdfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 04/17] fix: replace the default stream handler when
 configuring the logger

The default handler is a StreamHandler subclass, so it was never recognised and every message was printed twice.
---
 gerabaldi/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..2e60a4b 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,10 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From a60fbd928a15d52fb2a07b9627f9242fd08dbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 05/17] fix: report measurements of undefined parameters as
 MissingParamError

Condition values are generated before the parameters are looked up, so the check was never reached and a bare
KeyError was raised instead.
---
 gerabaldi/sim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..994c23f 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -144,6 +144,11 @@ def _sim_meas_step(
     are provided within the step and deg_data arguments, the measurement process adjusts these values according to test
     conditions, stochastic variations, and imperfect measurement instruments.
     """
+    for prm in step.measurements:
+        if prm not in dev_mdl.prm_mdl_list and prm not in step.conditions:
+            raise MissingParamError(f"Requested measurement of param '{prm}' failed, param is not defined within the \
+            simulated test.")
+
     # Loop through the parameters to measure and determine if they are degraded parameters or independent conditions
     meas_results = pd.DataFrame()
     # Generate 'true' values for environmental conditions specified by the step (using their variability models)
@@ -172,10 +177,6 @@ def _sim_meas_step(
             # These parameters are not degraded parameters of the device but instead environmental parameters
             measured = SimReport.format_measurements(conds[prm][prm], prm, sim_state.elapsed, step_id, 'condition')
 
-        else:
-            raise MissingParamError(f"Requested measurement of param '{prm}' failed, param is not defined within the \
-            simulated test.")
-
         # With the measurements completed, configure the dataframe for reporting and add to the merged dataframe
         measured['measured'] = test_env.meas_instm(prm).measure(measured['measured'])
         meas_results = pd.concat((meas_results, measured), ignore_index=True)
-- 
2.43.0


From 0f6e2e1cd513a0d53b05cc70345004e296190104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 06/17] fix: size stress phases by the initial state when one
 is provided

Only the measured parameters had a device count, so simulating from a provided state failed for parameters that are
not measured directly, such as the inputs of circuit parameters.
---
 gerabaldi/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 994c23f..e8ebe6d 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -224,6 +224,10 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    if init_state:
+        # The provided state determines how many instances of each degrading parameter are being simulated
+        for prm in sim_state.curr_prm_vals:
+            test_report.dev_counts[prm] = sim_state.curr_prm_vals[prm].shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From a9a3b613429b02c45672be2ee6e2dc863b4fd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 07/17] fix: allow instruments with limited precision to
 measure NaN values

---
 gerabaldi/models/phys_envs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..2007d4e 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,8 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x)
+                else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From 2de28ca63cbcc5b721fedb1f0289925e2100ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:57 +0000
Subject: [PATCH 08/17] fix: leave the device counts passed to gen_init_state
 unchanged

---
 gerabaldi/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index e8ebe6d..483ee79 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,7 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        devs, chps, lots = dict(dev_counts), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From 5b970ff7fd785c612ecb48e0386eccffb6d6fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 09/17] fix: restore a zero distribution centre after exporting
 a latent variable

---
 gerabaldi/models/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 1ff2743..7afced0 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -220,7 +220,7 @@ class LatentVar:
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
             old_centre = None
-            if self.deter_val:
+            if self.deter_val is not None:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
@@ -246,7 +246,7 @@ class LatentVar:
             else:
                 cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
+            if old_centre is not None:
                 self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
-- 
2.43.0


From ca0594e141f4994d6e7067bf1d61be4eeb5458e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:20 +0000
Subject: [PATCH 10/17] fix: export and reconvert reports whose times were
 already converted

---
 gerabaldi/models/reports.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..aac5ed5 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -167,6 +167,12 @@ class SimReport:
         """
         self.test_summary = pd.concat([self.test_summary, summary_info], ignore_index=True)
 
+    def _time_in_units(self, time, units: str) -> float:
+        # Times that were already converted by 'convert_report_time' are raw values in the time unit of this report
+        if not isinstance(time, timedelta):
+            time = _convert_time(time, self.time_unit)
+        return _convert_time(time, units)
+
     def export_to_json(self, file: str = None, time_unit: str = None) -> None | dict:
         """
         Formats a test report as a json string so that it can be saved as a file for storage or sharing
@@ -201,7 +207,7 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -226,5 +232,5 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
-- 
2.43.0


From e2d8b25d3c94c8a121dc504ab6fe00ae49804eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 11/17] fix: let mechanisms built without an equation be
 stressed

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 7afced0..0e4c583 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -373,7 +373,7 @@ class MechMdl(LatentMdl):
     ):
         if not mech_eqn:
             # Default is a non-degrading model, parameter stays the same (i.e. 'fresh') regardless of stress and time
-            def no_wear_out():
+            def no_wear_out(time=None):
                 return unitary_val
 
             mech_eqn = no_wear_out
-- 
2.43.0


From 15d6484f6e12618e8c7b44ba62436b751347e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 12/17] fix: accept initial states whose elapsed time is a
 number

---
 gerabaldi/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 483ee79..09e5460 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -82,6 +82,9 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
+        # Plain numbers are interpreted in the default time unit, i.e. hours
+        if not isinstance(elapsed_time, timedelta):
+            elapsed_time = _convert_time(elapsed_time, None)
         init_state.elapsed = elapsed_time
     return init_state
 
-- 
2.43.0


From 57d88cd51449e742da5ed41b2289394eebbef54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:55 +0000
Subject: [PATCH 13/17] fix: export, import and convert reports without
 measurements

---
 gerabaldi/models/reports.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index aac5ed5..e9d68e6 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -78,7 +78,8 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
-            self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
+            if not self.measurements.empty:
+                self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
             self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
@@ -207,7 +208,8 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
+        if not meas_cpy.empty:
+            meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -232,5 +234,6 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
-        self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
+        if not self.measurements.empty:
+            self.measurements['time'] = self.measurements['time'].apply(self._time_in_units, units=units)
         self.time_unit = units
-- 
2.43.0


From 0b9e7d77017125120665200fd1346986982e844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 14/17] fix: keep small values when exporting reports to JSON

---
 gerabaldi/models/reports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index e9d68e6..63de8d9 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -210,12 +210,12 @@ class SimReport:
         meas_cpy = self.measurements.copy()
         if not meas_cpy.empty:
             meas_cpy['time'] = meas_cpy['time'].apply(self._time_in_units, units=units)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = meas_cpy.to_json(double_precision=15)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = strs_cpy.to_json(double_precision=15)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From 3c267e2f74fb52fe7ba6b9684877d7fd470bf2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:32 +0000
Subject: [PATCH 15/17] fix: pass scalars of every type on to per-sample
 equations

Per-sample evaluation dropped arguments that are neither arrays nor int, float,
numpy.float64 or tuple (numpy integers, float32, booleans, strings), so the
equation was called without them and failed.
---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 2e60a4b..a463b24 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -176,7 +176,7 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
             new[key] = _get_single_index(vals[key], i, j, k)
         elif type(val) in [np.ndarray, list]:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
             new[key] = val
     return new
 
-- 
2.43.0


From 0cde3608fd7d205e2213d3af13ff925d405c300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:37 +0000
Subject: [PATCH 16/17] fix: export observed models to pyro as event
 distributions

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 0e4c583..35dbfbc 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -353,7 +353,7 @@ class LatentMdl:
         if target_framework == 'pymc':
             return pymc.Normal(name=self.name, mu=computed, sigma=1, observed=observed[self.name])
         else:
-            return pyro.sample(self.name, dist.Normal(computed, 0.1), obs=observed[self.name]).to_event(1)
+            return pyro.sample(self.name, dist.Normal(computed, 0.1).to_event(), obs=observed[self.name])
 
 
 class MechMdl(LatentMdl):
-- 
2.43.0


From c3bb85af22d7182ca869390195bb8e5db66cc89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:40 +0000
Subject: [PATCH 17/17] fix: return readings of numpy numbers as numbers

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 2007d4e..e77e6f3 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -94,7 +94,7 @@ class MeasInstrument:
         # Convert the measured values back into the passed data type
         if rtrn_type == np.ndarray:
             meas_vals = np.array(meas_vals)
-        elif rtrn_type is int or rtrn_type is float:
+        elif np.isscalar(true_vals):
             meas_vals = meas_vals[0]
         return meas_vals
 
-- 
2.43.0

