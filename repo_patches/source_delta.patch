From 9490b2b36f163ccc32a16eaef64499ddd497b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 001/101] fix: NamedValues.copy() shared its contents with the
 original

---
 aviary/utils/named_values.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..ad6db7a 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,11 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # the copy needs its own mapping, or changes to one collection show up in the other
+        new._mapping = self._mapping.copy()
+
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From a9cb948a5b6f78de99dfaca40dbd7e1302153392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 002/101] fix: unit conversion truncated the values of integer
 arrays

---
 aviary/utils/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..0d2b7ca 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -50,7 +50,11 @@ def wrapped_convert_units(val_unit_tuple, new_units):
     if value is None:
         return None
 
-    if isiterable(value):
+    if isinstance(value, np.ndarray) and value.dtype != object:
+        # convert the array as a whole: assigning converted entries into an array of integers would
+        # truncate them
+        value = convert_units(value, units, new_units)
+    elif isiterable(value):
         # tuples are immutable, so we have to convert to list to modify each index
         if isinstance(value, tuple):
             istuple = True
-- 
2.43.0


From 13efbf56feafbae0c5700651be925bea482258f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 003/101] fix: lists of enum values were reduced to one member
 or silently cut short

---
 aviary/utils/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 0d2b7ca..d5cad6f 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -127,10 +127,10 @@ def enum_setter(opt_meta, value):
             elif isinstance(val, str):
                 try:
                     # see if str maps to ENUM value
-                    return enum_class(val)
+                    values.append(enum_class(val))
                 except ValueError:
                     # str instead maps to ENUM name
-                    return getattr(enum_class, val.upper())
+                    values.append(getattr(enum_class, val.upper()))
             else:
                 break
         else:
@@ -140,7 +140,7 @@ def enum_setter(opt_meta, value):
             else:
                 values = type(value)(values)
 
-        return values
+            return values
 
     msg = f"Value '{value}' not valid for option with types {enum_class}"
     raise TypeError(msg)
-- 
2.43.0


From 04fee47ec2735fa793ddc94425ab168fbe3892cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 004/101] fix: a phase-specific parameter limited which phases
 receive the other trajectory parameters

---
 aviary/variable_info/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..c521245 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -425,10 +425,10 @@ def setup_trajectory_params(
 
     # Step 3: Loop through the collected parameters and call traj.add_parameter
     already_added = []
-    for key, phases in parameters_with_phases.items():
+    for key, param_phases in parameters_with_phases.items():
         # Assuming the kwargs are the same for shared parameters
-        kwargs = external_parameters[phases[0]][key]
-        targets = {phase: [key] for phase in phases}
+        kwargs = external_parameters[param_phases[0]][key]
+        targets = {phase: [key] for phase in param_phases}
         traj.add_parameter(key, **kwargs, targets=targets)
 
         model.promotes('traj', inputs=[(f'parameters:{key}', key)])
-- 
2.43.0


From da80b73bc8d5480a0d57f184d72ae7dc8e875b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 005/101] fix: options of one engine leaked into engines whose
 name starts with its name

---
 aviary/variable_info/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index c521245..3333153 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -607,5 +607,7 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
+        # the engine itself and everything inside it, but not engines whose name starts with this name
+        path = f'{prefix}*propulsion.{eng_name}'
         prob.model_options[path] = opts
+        prob.model_options[f'{path}.*'] = opts
-- 
2.43.0


From 1ab3d9421c054d41949638f137a65869fda5650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 006/101] fix: the flap type was declared as multi-valued
 although every user of it needs a single value

---
 aviary/variable_info/variable_meta_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index a170848..28c6890 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -5504,7 +5504,6 @@ add_meta_data(
     units='unitless',
     default_value=FlapType.DOUBLE_SLOTTED,
     types=FlapType,
-    multivalue=True,
     option=True,
     desc='Set the flap type. Available choices are: plain, split, single_slotted, '
     'double_slotted, triple_slotted, fowler, and double_slotted_fowler. '
-- 
2.43.0


From e88b6ff7df23d566420871c8281971bc588d1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 007/101] fix: engine decks miscounted the data points of a
 flight condition and ignored the last Mach number

---
 aviary/subsystems/propulsion/engine_deck.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..549c493 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1491,7 +1491,7 @@ class EngineDeck(EngineModel):
 
                 if not self.global_throttle:
                     # normalize throttles for this flight condition from 0 to 1
-                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A] + 1])
+                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A]])
                     normalized_throttle = np.append(normalized_throttle, throttle_list)
                     throttle_min = np.append(throttle_min, min(throttle_list))
                     throttle_max = np.append(throttle_max, max(throttle_list))
@@ -1499,7 +1499,7 @@ class EngineDeck(EngineModel):
                 if not self.global_hybrid_throttle and self.use_hybrid_throttle:
                     # normalize hybrid throttles for this flight condition
                     hybrid_throttle_list = _hybrid_throttle_norm(
-                        packed_hybrid_throttle[M, A][: data_indices[M, A] + 1]
+                        packed_hybrid_throttle[M, A][: data_indices[M, A]]
                     )
                     normalized_hybrid_throttle = np.append(
                         normalized_hybrid_throttle, hybrid_throttle_list
@@ -1602,8 +1602,7 @@ class EngineDeck(EngineModel):
                     # skip point if there is no data
                     continue
 
-                # number of data points is index+1
-                for D in range(data_indices[M, A] + 1):
+                for D in range(data_indices[M, A]):
                     for key in self.data:
                         unpacked_data = self.data[key]
                         if idx < len(unpacked_data):
@@ -1647,8 +1646,8 @@ class EngineDeck(EngineModel):
 
             if math.isclose(mach_num, curr_mach, abs_tol=self.mach_tol):
                 if math.isclose(alt, curr_alt, abs_tol=self.alt_tol):
-                    data_indices[mach_count - 1, alt_count - 1] = data_count
                     data_count += 1
+                    data_indices[mach_count - 1, alt_count - 1] = data_count
 
                 else:
                     # new altitude for this Mach number, count it
@@ -1706,6 +1705,10 @@ class EngineDeck(EngineModel):
                 # count data associated with new altitude
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
+        # the last Mach number and flight condition also count
+        max_alt_count = max(max_alt_count, alt_count)
+        max_data_count = max(max_data_count, data_count)
+
         self.mach_max_count = mach_count
         self.alt_max_count = max_alt_count
         self.data_max_count = max_data_count
-- 
2.43.0


From 167f69ec59c61d9b54b46bb99bfffbf65c8c2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 008/101] fix: engine decks refused consistent net thrust and
 accepted inconsistent one

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 549c493..8233a72 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -468,7 +468,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
-- 
2.43.0


From 1409fe5a9534fe52a6d7abc432a4af11da7d2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 009/101] fix: engine decks did not refuse missing variables
 and failed when ignoring negative thrust

---
 aviary/subsystems/propulsion/engine_deck.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 8233a72..f9a67b8 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -528,22 +528,18 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
-
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            missing_variables = self.required_variables.difference(engine_variables)
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
-        if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
+        if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST) and self.use_thrust:
             keep_idx = np.where(data[THRUST] >= 0)
             for key in data:
-                data[key] = data[key][keep_idx]
+                # unused variables have no data yet
+                if len(data[key]):
+                    data[key] = data[key][keep_idx]
 
         self.model_length = len(self.data[ALTITUDE])
 
-- 
2.43.0


From 24d0696b2d2726879e5ba4999514963bc28620aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 010/101] fix: whether corrected shaft power is dropped from an
 engine deck depended on verbosity

---
 aviary/subsystems/propulsion/engine_deck.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index f9a67b8..c722f1e 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -510,16 +510,13 @@ class EngineDeck(EngineModel):
         # consistency, as that requires information not available during setup (freestream air temp
         # and pressure). Instead, we must trust the source and assume either data set is valid and
         # can be used.
-        if (
-            SHAFT_POWER in engine_variables
-            and SHAFT_POWER_CORRECTED in engine_variables
-            and self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF
-        ):
-            warnings.warn(
-                'Both corrected and uncorrected shaft horsepower are present in '
-                f'{self.error_message}. The two cannot be validated for consistency, and only '
-                'uncorrected shaft power will be used.'
-            )
+        if SHAFT_POWER in engine_variables and SHAFT_POWER_CORRECTED in engine_variables:
+            if self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF:
+                warnings.warn(
+                    'Both corrected and uncorrected shaft horsepower are present in '
+                    f'{self.error_message}. The two cannot be validated for consistency, and only '
+                    'uncorrected shaft power will be used.'
+                )
             engine_variables.pop(SHAFT_POWER_CORRECTED)
             self.data.pop(SHAFT_POWER_CORRECTED)
 
-- 
2.43.0


From 2f8db26f7c19bee823623c013ca44c3d920bca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 011/101] fix: maximum hybrid throttle of engine decks was not
 used

---
 aviary/subsystems/propulsion/engine_deck.py | 38 ++++++++++++---------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index c722f1e..6ad4df1 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -895,8 +895,16 @@ class EngineDeck(EngineModel):
         # TODO Use solver to find throttle/hybrid throttle for maximum thrust at given flight condition?
         #      Pre-solve max throttle/hybrid throttle for each flight condition, interpolate on
         #      reduced data set?
+        # each of the throttles is either at its maximum for the whole deck, or interpolated
+        local_throttle = not self.global_throttle
+        local_hybrid_throttle = self.use_hybrid_throttle and not self.global_hybrid_throttle
+        use_fixed_throttles = self.global_throttle or (
+            self.use_hybrid_throttle and self.global_hybrid_throttle
+        )
+        use_interp_throttles = local_throttle or local_hybrid_throttle
+
         if self.use_thrust or self.use_shaft_power:
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
+            if use_fixed_throttles:
                 # create IndepVarComp to pass maximum throttle to max thrust interpolator
                 fixed_throttles = om.IndepVarComp()
                 if self.global_throttle:
@@ -913,9 +921,7 @@ class EngineDeck(EngineModel):
                         units='unitless',
                         desc='Engine maximum hybrid throttle',
                     )
-            if not (
-                self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle)
-            ):
+            if use_interp_throttles:
                 interp_throttles = om.MetaModelSemiStructuredComp(
                     method=interp_method, extrapolate=False, vec_size=num_nodes
                 )
@@ -1076,12 +1082,12 @@ class EngineDeck(EngineModel):
             )
 
         if self.use_thrust or self.use_shaft_power:
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
+            if use_fixed_throttles:
                 engine_group.add_subsystem(
                     'fixed_max_throttles',
                     fixed_throttles,
                 )
-            else:
+            if use_interp_throttles:
                 engine_group.add_subsystem(
                     'interp_max_throttles',
                     interp_throttles,
@@ -1098,15 +1104,15 @@ class EngineDeck(EngineModel):
             )
 
             # manually connect max throttles - do not promote them out of group
-            if self.global_throttle or (self.global_hybrid_throttle and self.use_hybrid_throttle):
-                engine_group.connect(
-                    'fixed_max_throttles.throttle_max',
-                    'max_interpolation.throttle_max',
-                )
-            else:
+            engine_group.connect(
+                f'{"interp" if local_throttle else "fixed"}_max_throttles.throttle_max',
+                'max_interpolation.throttle_max',
+            )
+            if self.use_hybrid_throttle:
+                source = 'interp' if local_hybrid_throttle else 'fixed'
                 engine_group.connect(
-                    'interp_max_throttles.throttle_max',
-                    'max_interpolation.throttle_max',
+                    f'{source}_max_throttles.hybrid_throttle_max',
+                    'max_interpolation.hybrid_throttle_max',
                 )
 
             if uncorrect_shp:
@@ -1515,8 +1521,8 @@ class EngineDeck(EngineModel):
             if self.global_hybrid_throttle:
                 norm_hybrid_throttle = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
 
-                self.hybrid_throttle_min = min(self.data[HYBRID_THROTTLE])
-                self.hybrid_throttle_max = max(self.data[HYBRID_THROTTLE])
+                self.hybrid_throttle_min = min(norm_hybrid_throttle)
+                self.hybrid_throttle_max = max(norm_hybrid_throttle)
                 self.data[HYBRID_THROTTLE] = norm_hybrid_throttle
             else:
                 self.data[HYBRID_THROTTLE] = normalized_hybrid_throttle
-- 
2.43.0


From f444d4bd94a860878c98dee5279e8a9e0d3b14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 012/101] fix: rpm of an engine deck was always zero

---
 aviary/subsystems/propulsion/engine_deck.py    | 2 ++
 aviary/subsystems/propulsion/engine_scaling.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 6ad4df1..78fa4d6 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1054,6 +1054,8 @@ class EngineDeck(EngineModel):
         outputs = []
         if getattr(self, 'use_t4', False):
             outputs.append(Dynamic.Vehicle.Propulsion.TEMPERATURE_T4)
+        if RPM in self.engine_variables:
+            outputs.append(Dynamic.Vehicle.Propulsion.RPM)
 
         engine_group.add_subsystem(
             'interpolation', engine, promotes_inputs=['*'], promotes_outputs=outputs
diff --git a/aviary/subsystems/propulsion/engine_scaling.py b/aviary/subsystems/propulsion/engine_scaling.py
index ef3173d..1e7a11b 100644
--- a/aviary/subsystems/propulsion/engine_scaling.py
+++ b/aviary/subsystems/propulsion/engine_scaling.py
@@ -19,10 +19,11 @@ FUEL_FLOW = EngineModelVariables.FUEL_FLOW
 ELECTRIC_POWER = EngineModelVariables.ELECTRIC_POWER_IN
 NOX_RATE = EngineModelVariables.NOX_RATE
 TEMPERATURE = EngineModelVariables.TEMPERATURE_T4
+RPM = EngineModelVariables.RPM
 # EXIT_AREA = EngineModelVariables.EXIT_AREA
 
 # these variables are not outputs or are variables that should not get scaled
-skip_variables = [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE, TEMPERATURE]
+skip_variables = [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE, TEMPERATURE, RPM]
 
 
 class EngineScaling(om.ExplicitComponent):
-- 
2.43.0


From cc5ae7b71715ec1a2007f2ebdb47263833c07b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 013/101] fix: engine decks built from data in memory could not
 be used and modified the data of the caller

---
 aviary/subsystems/propulsion/engine_deck.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 78fa4d6..eeba599 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -190,13 +190,13 @@ class EngineDeck(EngineModel):
         # Create dict for variables present in engine data with associated units
         self.engine_variables = {}
 
-        if Aircraft.Engine.GLOBAL_THROTTLE in options:
+        if Aircraft.Engine.GLOBAL_THROTTLE in self.options:
             self.global_throttle = self.options.get_val(Aircraft.Engine.GLOBAL_THROTTLE)
         else:
             default = meta_data[Aircraft.Engine.GLOBAL_THROTTLE]['default_value']
             self.options.set_val(Aircraft.Engine.GLOBAL_THROTTLE, default)
             self.global_throttle = default
-        if Aircraft.Engine.GLOBAL_HYBRID_THROTTLE in options:
+        if Aircraft.Engine.GLOBAL_HYBRID_THROTTLE in self.options:
             self.global_hybrid_throttle = self.options.get_val(
                 Aircraft.Engine.GLOBAL_HYBRID_THROTTLE
             )
@@ -360,7 +360,11 @@ class EngineDeck(EngineModel):
             raw_data, self.inputs, self.outputs = read_data_file(data_file, aliases=aliases)
 
         else:
-            # run provided data through aliases
+            # run provided data through aliases - the caller's data is not modified
+            raw_data = NamedValues(raw_data)
+            # variables are not labeled as inputs or outputs in memory
+            self.inputs = []
+            self.outputs = []
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
             for item in raw_data.items():
-- 
2.43.0


From cc2aa6c459abf0dbde56686b02d39eca07517e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 014/101] fix: reading and writing data files modified the
 aliases and comments of the caller

---
 aviary/utils/csv_data_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..364193d 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -67,7 +67,9 @@ def read_data_file(
     outputs = []
 
     # prep aliases for case-insensitive matching, with spaces == underscores
+    # the dictionary that was passed in is not modified
     if aliases:
+        aliases = dict(aliases)
         for key in aliases:
             if isinstance(aliases[key], str):
                 aliases[key] = [aliases[key]]
@@ -255,6 +257,9 @@ def write_data_file(
 
     if type(comments) is str:
         comments = [comments]
+    else:
+        # the list that was passed in is not modified
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From c849f9c89a0e1105776a89b009d00af92827cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 015/101] fix: data files with parentheses in units could not
 be read back

---
 aviary/utils/csv_data_file.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 364193d..8f9ecbd 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -88,8 +88,10 @@ def read_data_file(
                 line_data = line_data[:index]
 
             # split by delimiters, remove whitespace and newline characters
-            # do not split by delimiters inside parentheses yet
-            line_data = re.split(r'[;,]\s*(?![^()]*\))', line_data.strip())
+            # do not split by delimiters inside parentheses yet (units may be parenthesized as well)
+            line_data = re.split(
+                r'[;,]\s*(?![^()]*(?:\([^()]*\)[^()]*)*\))', line_data.strip()
+            )
 
             # ignore empty lines
             if not line_data or line_data == ['']:
@@ -107,8 +109,13 @@ def read_data_file(
                     # list of which column goes with each valid header entry
                     valid_indices = []
                     for index in range(len(line_data)):
-                        item = re.split('[(,]', line_data[index])
-                        item = [item[i].strip(') ') for i in range(len(item))]
+                        # only the outer parentheses are removed, units may contain others
+                        name, _, info = line_data[index].strip().partition('(')
+                        if info.endswith(')'):
+                            info = info[:-1]
+                        item = [name.strip()]
+                        if info:
+                            item.extend(entry.strip() for entry in info.split(','))
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
                         if aliases:
-- 
2.43.0


From b3fdac1ccea9fa1bcc43d7305aa9ec7e83ebf033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 016/101] fix: two columns for the same variable were mixed
 into one in data files

---
 aviary/utils/csv_data_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 8f9ecbd..595aaed 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -190,6 +190,10 @@ def read_data_file(
                                     )
                             units = default_units
 
+                        if name in header:
+                            raise ValueError(
+                                f'{filepath}: Variable {name} is provided by more than one column.'
+                            )
                         header[name] = units
                         valid_indices.append(index)
 
-- 
2.43.0


From a6661b8c455fdbe51d04d6fc65c6290c7a6c6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 017/101] fix: lists of options were written by member instead
 of by value in csv files

---
 aviary/utils/aviary_inputs_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..e9a8d7d 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -20,7 +20,7 @@ def save_to_csv_file(filename, aviary_inputs):
         for name, (value, units) in sorted(aviary_inputs):
             output = [name]
             if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
+                output.extend(item.value if isinstance(item, Enum) else item for item in value)
             elif isinstance(value, Enum):
                 output.append(value.value)
             else:
-- 
2.43.0


From b954202dc82f405239be6ad46962be60611cff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 018/101] fix: numbers in scientific notation were read as
 strings from aircraft files

---
 aviary/utils/functions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..1c32f84 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -91,6 +91,14 @@ def set_aviary_input_defaults(model, inputs, aviary_inputs: AviaryValues, meta_d
         model.set_input_defaults(key, val=val, units=units)
 
 
+def convert_string_to_number(string):
+    """Convert string to int, or float if needed (e.g. decimal point or scientific notation)."""
+    try:
+        return int(string)
+    except ValueError:
+        return float(string)
+
+
 def convert_strings_to_data(input_string):
     """
     convert_strings_to_data will convert a string or list of strings to usable data.
@@ -113,7 +121,7 @@ def convert_strings_to_data(input_string):
             # if the value is a number store it as a float or an int as appropriate
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
             # int (1), even if the variable requires floats
-            value_list[ii] = int(dat) if '.' not in dat else float(dat)
+            value_list[ii] = convert_string_to_number(dat)
         except ValueError:
             # store value as a boolean if it is a string that represents True or False
             if dat.lower() == 'true':
-- 
2.43.0


From 1da35e8a1c75e469ebd38d36b02718fc7b2bbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 019/101] fix: verbosity given in an aircraft file was always
 overridden

---
 aviary/utils/process_input_decks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..99b5c18 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -67,9 +67,6 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
     (aircraft_values, initialization_guesses): (tuple)
         Returns a tuple containing aircraft values and initial guesses.
     """
-    if verbosity is None:
-        verbosity = Verbosity.BRIEF
-
     aircraft_values = AviaryValues()
 
     # TODO remove all hardcoded GASP values here, find appropriate place for them
@@ -107,7 +104,9 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
                 initialization_guesses[key.removeprefix('initialization_guesses:')] = val
         aircraft_values.update(vehicle_deck)
     else:
-        vehicle_deck = get_path(vehicle_deck, verbosity)
+        vehicle_deck = get_path(
+            vehicle_deck, Verbosity.BRIEF if verbosity is None else Verbosity(verbosity)
+        )
         aircraft_values, initialization_guesses = parse_inputs(
             vehicle_deck=vehicle_deck,
             aircraft_values=aircraft_values,
-- 
2.43.0


From ae383cb0ddb7ad53ef55dc5621af04c4ca73485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 020/101] fix: verbosity of an aircraft file was ignored by
 default, contrary to the documentation

---
 aviary/utils/process_input_decks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 99b5c18..de2837a 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -44,7 +44,7 @@ problem_types = {
 }
 
 
-def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.BRIEF):
+def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=None):
     """
     Creates and initializes a vehicle with default or specified parameters. It sets up the aircraft values
     and initial guesses based on the input from the vehicle deck.
-- 
2.43.0


From 592346cc841fa1f9e0151aed30a63833f9de6f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 021/101] fix: bracketed lists ending in zero could not be read
 from aircraft files

---
 aviary/utils/process_input_decks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index de2837a..95f42db 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -174,7 +174,8 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
-            if valid_units(data_list[-1]):
+            # the closing bracket of a list is not part of a unit
+            if not data_list[-1].endswith(']') and valid_units(data_list[-1]):
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-- 
2.43.0


From 18fa05a77d30f4869a8964b4512bf94a0fbc3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 022/101] fix: whole numbers were refused as engine locations

---
 aviary/variable_info/variable_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index 28c6890..40b7476 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -2509,7 +2509,7 @@ add_meta_data(
     units='unitless',
     desc='Engine wing mount locations as fractions of semispan; (NUM_WING_ENGINES)/2 values '
     'are input',
-    types=(float, list, np.ndarray),
+    types=float,
     default_value=[0.0],
     multivalue=True,
 )
-- 
2.43.0


From a233de4cb255ba2a32a65da2cbf8f575ceab6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 023/101] fix: updating aircraft data from a plain collection
 of named values failed

---
 aviary/utils/named_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index ad6db7a..92f7055 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -232,7 +232,7 @@ class NamedValues(Collection):
 
         set_val = self.set_val
 
-        if isinstance(other, type(self)):
+        if isinstance(other, NamedValues):
             # NamedValues
             other = other._mapping
 
-- 
2.43.0


From 4e0e8ade502d0942783243dfcaffab3127a97b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 024/101] fix: single-valued nacelle data given with engines
 raised TypeError

---
 aviary/utils/preprocessors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..7507ee5 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -780,7 +780,8 @@ def preprocess_propulsion(
     # Vectorize engine variables. Only update variables in update_list that are relevant
     # to engines (defined by _get_engine_variables())
     for var in _get_engine_variables():
-        if var in update_list:
+        # Variables that take a single value for the entire aircraft are not vectorized
+        if var in update_list and meta_data[var]['multivalue']:
             dtype = meta_data[var]['types']
             default_value = meta_data[var]['default_value']
             multivalue = meta_data[var]['multivalue']
-- 
2.43.0


From c427c6caefe3c582a74b60c3fe09ead1147aa3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 025/101] fix: default of per-engine lists was nested when an
 engine lacks it

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 7507ee5..9164e88 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -834,7 +834,10 @@ def preprocess_propulsion(
                         aviary_val = aviary_options.get_val(var, units)
                     # if the variable is not in aviary_options, use default from metadata
                     except (KeyError, IndexError):
-                        vec.append(default_value)
+                        if isiterable(default_value) and multidimensional:
+                            vec.extend(default_value)
+                        else:
+                            vec.append(default_value)
                     else:
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
-- 
2.43.0


From 0ff5ccacee95a5e069fd17f363c354a25f979419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 026/101] fix: a single unplaced engine was lost when no engine
 is on the wing

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 9164e88..aa9fb26 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -941,7 +941,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            else:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From 3b2f5e78f9e7f59bdd7120cbb862147b92e806ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 027/101] fix: engine locations and additional mass fraction
 were regrouped on every preprocessing

---
 aviary/variable_info/variable_meta_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index 40b7476..b28cbde 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -1967,7 +1967,7 @@ add_meta_data(
     option=True,
     desc='fraction of (scaled) engine mass used to calculate additional engine mass (see '
     'Aircraft.Engine.ADDITIONAL_MASS)',
-    types=(float, int, np.ndarray),
+    types=float,
     multivalue=True,
     default_value=0.0,
 )
@@ -2509,7 +2509,7 @@ add_meta_data(
     units='unitless',
     desc='Engine wing mount locations as fractions of semispan; (NUM_WING_ENGINES)/2 values '
     'are input',
-    types=float,
+    types=(float, int, list, np.ndarray),
     default_value=[0.0],
     multivalue=True,
 )
-- 
2.43.0


From b216f9d48317a9d673d9867b93fd50193430fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 028/101] fix: wrong powers of density in the acceleration from
 equivalent airspeed, missing partials

---
 .../ode/unsteady_solved_flight_conditions.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..df32df9 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -325,8 +325,8 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             drho_dt_approx = drho_dh * tas * sgam
             deas_dt_approx = deas_dr * tas * cgam
             outputs['dTAS_dt_approx'] = (
-                deas_dt_approx * (rho_sl / rho) ** 1.5
-                - 0.5 * eas * drho_dt_approx * rho_sl**1.5 / rho_sl**2.5
+                deas_dt_approx * (rho_sl / rho) ** 0.5
+                - 0.5 * eas * drho_dt_approx * rho_sl**0.5 / rho**1.5
             )
 
         else:
@@ -389,15 +389,23 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.MACH, Dynamic.Atmosphere.SPEED_OF_SOUND] = -TAS / sos**2
             partials[Dynamic.Mission.VELOCITY, Dynamic.Atmosphere.DENSITY] = dTAS_dRho
             partials[Dynamic.Mission.VELOCITY, 'EAS'] = dTAS_dEAS
-            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * (rho_sl / rho) ** 1.5
+            dEAS_dr = inputs['dEAS_dr']
+            drho_dh = inputs['drho_dh']
+            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * (rho_sl / rho) ** 0.5
             partials['dTAS_dt_approx', 'drho_dh'] = (
-                -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
+                -0.5 * EAS * TAS * sgam * rho_sl**0.5 / rho**1.5
+            )
+            partials['dTAS_dt_approx', 'EAS'] = (
+                dEAS_dr * cgam * rho_sl / rho - EAS * drho_dh * sgam * rho_sl / rho**2
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
+                -dEAS_dr * EAS * cgam * rho_sl / rho**2 + EAS**2 * drho_dh * sgam * rho_sl / rho**3
             )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-                    -TAS * sgam * (rho_sl / rho) ** 1.5 * inputs['dEAS_dr']
-                    - 0.5 * EAS * TAS * cgam * rho_sl**1.5 / rho_sl**2.5 * inputs['drho_dh']
+                    -TAS * sgam * (rho_sl / rho) ** 0.5 * dEAS_dr
+                    - 0.5 * EAS * TAS * cgam * rho_sl**0.5 / rho**1.5 * drho_dh
                 )
 
         else:
-- 
2.43.0


From 55e911de8e426fdbea238a31cde6c122543283b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 029/101] fix: acceleration from Mach lacked partials wrt Mach
 and speed of sound

---
 .../ode/unsteady_solved_flight_conditions.py     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index df32df9..9a13951 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -430,6 +438,12 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2.0 * inputs['dmach_dr'] * TAS * cgam + inputs['dsos_dh'] * mach**2 * sgam
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * sos**2 * cgam + 2.0 * inputs['dsos_dh'] * TAS * sgam
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From b8a9b7e1d7a04ede63639d683e0674bbc2786e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 030/101] fix: cruise distance partials wrt the initial
 distance covered only the first node

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..0229b1d 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,8 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
+            rows=row_col,
+            cols=np.zeros(nn),
             val=1.0,
         )
 
-- 
2.43.0


From 0118d13ca4b4147c8d919c1e72a4b1cf0ed76319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 031/101] fix: adiabatic wall temperature was held constant in
 the skin friction partials

---
 .../aerodynamics/flops_based/skin_friction.py | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/flops_based/skin_friction.py b/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
index d550659..60a99ec 100644
--- a/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
+++ b/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
@@ -20,7 +20,6 @@ class SkinFriction(om.ImplicitComponent):
         super().__init__(**kwargs)
 
         self.CONLOG = 2.302585
-        self.TAW = 1.0
         self.sea_level_pressure = 14.6959 * 144  # psi -> psf
 
         self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, atol=1e-12, rtol=1e-12)
@@ -149,7 +148,6 @@ class SkinFriction(om.ImplicitComponent):
         wall_temp = (1.0 + 0.176 * mach * mach) * rankine
         wall_temp = np.tile(wall_temp, nc).reshape((nc, nn)).T
         outputs['wall_temp'] = wall_temp
-        self.TAW = wall_temp
 
         # INITIAL GUESS AT SKIN FRICTION COEFFICIENT
         outputs['cf_iter'] = (0.242 / (np.log(reynolds_num * 0.0015) / self.CONLOG)) ** 2
@@ -183,8 +181,11 @@ class SkinFriction(om.ImplicitComponent):
 
         CFL = cf / (1.0 + 3.59 * np.sqrt(cf) * wall_temp_ratio)
 
+        # ADIABATIC WALL TEMPERATURE
+        TAW = ((1.0 + 0.176 * mach * mach) * T)[:, np.newaxis]
+
         prod = np.einsum('j,jk->jk', combined_const, wall_temp**3)
-        residuals['wall_temp'] = (self.TAW / (1.0 + prod / CFL) + wall_temp) * 0.5 - wall_temp
+        residuals['wall_temp'] = (TAW / (1.0 + prod / CFL) + wall_temp) * 0.5 - wall_temp
 
         RP = (
             reynolds_num
@@ -251,11 +252,16 @@ class SkinFriction(om.ImplicitComponent):
         dCFL_dT = dCFL_dwtr * dwtr_dT
         dCFL_dwt = np.einsum('ij,i->ij', dCFL_dwtr, dwtr_dwt)
 
+        TAW = ((1.0 + 0.176 * mach * mach) * T)[:, np.newaxis]
+        dTAW_dT = 1.0 + 0.176 * mach * mach
+        dTAW_dmach = 0.352 * mach * T
+
         term = np.einsum('i,ij->ij', combined_const, wall_temp**3)
         den = 1.0 + term / CFL
-        dreswt_dcomb = -0.5 * self.TAW * wall_temp**3 / (CFL * den**2)
-        dreswt_dCFL = 0.5 * self.TAW * term / (CFL * den) ** 2
-        dreswt_dwt = -0.5 - 1.5 * self.TAW * np.einsum('i,ij->ij', combined_const, wall_temp**2) / (
+        dreswt_dTAW = 0.5 / den
+        dreswt_dcomb = -0.5 * TAW * wall_temp**3 / (CFL * den**2)
+        dreswt_dCFL = 0.5 * TAW * term / (CFL * den) ** 2
+        dreswt_dwt = -0.5 - 1.5 * TAW * np.einsum('i,ij->ij', combined_const, wall_temp**2) / (
             CFL * den**2
         )
 
@@ -263,10 +269,14 @@ class SkinFriction(om.ImplicitComponent):
             np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dp)
         ).ravel()
         partials['wall_temp', Dynamic.Atmosphere.TEMPERATURE] = (
-            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dT) + dreswt_dCFL * dCFL_dT
+            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dT)
+            + dreswt_dCFL * dCFL_dT
+            + np.einsum('ij,i->ij', dreswt_dTAW, dTAW_dT)
         ).ravel()
         partials['wall_temp', Dynamic.Atmosphere.MACH] = (
-            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dmach) + dreswt_dCFL * dCFL_dmach
+            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dmach)
+            + dreswt_dCFL * dCFL_dmach
+            + np.einsum('ij,i->ij', dreswt_dTAW, dTAW_dmach)
         ).ravel()
         partials['wall_temp', 'wall_temp'] = (dreswt_dCFL * dCFL_dwt + dreswt_dwt).ravel()
         partials['wall_temp', 'cf_iter'] = (dreswt_dCFL * dCFL_dcf).ravel()
-- 
2.43.0


From 65e18a09055415de3d4fc194222a168a98feebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 032/101] fix: partials of skin friction drag wrt Reynolds
 number were stale without laminar flow

---
 .../subsystems/aerodynamics/flops_based/skin_friction_drag.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
index 06c792b..d8dfb27 100644
--- a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
+++ b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
@@ -276,6 +276,8 @@ class SkinFrictionDrag(om.ExplicitComponent):
 
         if laminar_flow:
             partials['skin_friction_drag_coeff', 'Re'] = DCDF_dRe.ravel()
+        else:
+            partials['skin_friction_drag_coeff', 'Re'] = 0.0
 
         partials['skin_friction_drag_coeff', 'fineness_ratios'] = np.einsum(
             'ij,j->ij', DCDF_dform, dform_dfine
-- 
2.43.0


From 9ae7485713a8838314c7cf1b3d969cdfdd1e2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 033/101] fix: UFac partials ignored the limit on bbar

---
 .../aerodynamics/gasp_based/gaspaero.py          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..0a2a2f1 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -617,12 +617,20 @@ class UFac(om.ExplicitComponent):
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
 
+        # Same limit on bbar as in compute
+        limit_bbar = (
+            design_type is AircraftTypes.BLENDED_WING_BODY
+            and bbar < 0.01 * inputs[Aircraft.Wing.SPAN]
+        )
+        if limit_bbar:
+            bbar = 1.0
+
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -634,16 +642,22 @@ class UFac(om.ExplicitComponent):
             - 2 * sigma * lift_ratio / bbar**2
         )
         dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        if limit_bbar:
+            dufac_dbbar = 0.0 * dufac_dbbar
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
                 ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
-- 
2.43.0


From da135e8c3050e7faf5b275fe75390168f7dec40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 034/101] fix: strut skin friction in AeroGeom used all nodes
 where some are excluded, partials of the strut

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 0a2a2f1..7cc0525 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -897,7 +897,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Design.EXCRESCENCE_DRAG_FACTOR,
             Aircraft.Design.PERCENT_EXCRESCENCE_DRAG,
         ]
-        self.declare_partials('SA5', drag_factors, method='cs')
+        self.declare_partials(['SA5', 'SA7'], drag_factors + [Aircraft.Strut.CHORD], method='cs')
         self.declare_partials(
             'SA6', [Aircraft.Wing.FORM_FACTOR, Aircraft.Wing.AVERAGE_CHORD], method='cs'
         )
@@ -1005,7 +1005,7 @@ class AeroGeom(om.ExplicitComponent):
         fhtre[good_mask] = (np.log10(reli[good_mask] * htail_chord) / 7) ** -2.6
         include_strut = self.options[Aircraft.Wing.HAS_STRUT]
         if include_strut:
-            fstrtre = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
+            fstrtre[good_mask] = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
 
         # fuselage form drag factor
         # fffus = 1 + 1.5 * (cabin_width / fus_len) ** 1.5 + 7 * (cabin_width / fus_len) ** 3
-- 
2.43.0


From 0241520c80c2f64e9797eba3de4b435ad4ce51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 035/101] fix: DragCoefClean partials wrt the drag coefficient
 factors were missing

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 7cc0525..5829f33 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -1407,6 +1407,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From b8b1579ac938e75833b5c4ec6daf28a0e0c646ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 036/101] fix: partials of the speed of sound gradient used the
 wrong lapse rate and scale

---
 aviary/subsystems/atmosphere/atmosphere.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..2d776bd 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -309,11 +309,12 @@ class AtmosphereComp(om.ExplicitComponent):
 
         # similar to method in dymos
         coeffs = self.source_data.akima_dT[idx]
+        lapse_rate = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
-        # dsos_dh = 0.5 * (self._K * T)**(-0.5) * dT_dh * self._K
+        # dsos_dh = 0.5 * (self._K * T)**(-0.5) * lapse_rate * self._K
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
-            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh * self._K)
+            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (lapse_rate * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
         )
 
@@ -333,4 +334,4 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh**2
+            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From fa14f22e294c4222fcc92cf1f3df47334b56a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 037/101] fix: partials of the Hamilton Standard model missed
 terms absent at the coloring point

---
 .../propulsion/propeller/hamilton_standard.py | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/propulsion/propeller/hamilton_standard.py b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
index b8fd84d..64123a7 100644
--- a/aviary/subsystems/propulsion/propeller/hamilton_standard.py
+++ b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
@@ -624,10 +624,21 @@ class HamiltonStandard(om.ExplicitComponent):
         self.add_output('comp_tip_loss_factor', val=np.zeros(nn), units='unitless')
 
     def setup_partials(self):
-        # self.declare_partials('*', '*', method='cs')
-        # This should pick up 3 because the vectorized inputs have digaonal jacs.
-        self.declare_coloring(
-            '*', method='cs', num_full_jacs=1, show_summary=False, show_sparsity=False
+        arange = np.arange(self.options['num_nodes'])
+
+        # nodes are independent of each other
+        self.declare_partials(
+            '*',
+            ['power_coefficient', 'advance_ratio', Dynamic.Atmosphere.MACH, 'tip_mach'],
+            rows=arange,
+            cols=arange,
+        )
+        self.declare_partials(
+            '*',
+            [
+                Aircraft.Engine.Propeller.ACTIVITY_FACTOR,
+                Aircraft.Engine.Propeller.INTEGRATED_LIFT_COEFFICIENT,
+            ],
         )
 
     def compute(self, inputs, outputs):
@@ -939,6 +950,24 @@ class HamiltonStandard(om.ExplicitComponent):
             outputs['thrust_coefficient'][i_node] = ct
             outputs['comp_tip_loss_factor'][i_node] = xft
 
+    def compute_partials(self, inputs, partials):
+        # complex step: as the nodes are independent of each other, a single evaluation gives the
+        # derivatives with respect to the values of an input at all nodes
+        step = 1e-40
+        values = {name: np.array(value.real, dtype=complex) for name, value in inputs.items()}
+
+        for wrt, value in values.items():
+            outputs = {
+                'thrust_coefficient': np.zeros(self.options['num_nodes'], dtype=complex),
+                'comp_tip_loss_factor': np.zeros(self.options['num_nodes'], dtype=complex),
+            }
+            value += step * 1j
+            self.compute(values, outputs)
+            value -= step * 1j
+
+            for of, result in outputs.items():
+                partials[of, wrt] = result.imag / step
+
 
 class PostHamiltonStandard(om.ExplicitComponent):
     """Post-process after HamiltonStandard run to get thrust and compressibility."""
-- 
2.43.0


From d84270c2a756dc494906f4e5b7e9dccf980fddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 038/101] fix: MainGearLength partials wrt span, nacelle
 diameters and wing locations

---
 .../subsystems/geometry/flops_based/landing_gear.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..79a2eea 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
@@ -184,13 +184,20 @@ class MainGearLength(om.ExplicitComponent):
                 dcmlg_dhw * dhw_dfuse_wid
             )
 
+            # only the first engine model and the first wing location are used
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER] = (
+                0.0
+            )
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER][
-                :
+                0, 0
             ] = dcmlg_dnac
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS] = (
-                dcmlg_dyee * dyee_dwel
+                0.0
             )
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS][
+                0, 0
+            ] = (dcmlg_dyee * dyee_dwel)[0]
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Wing.DIHEDRAL] = (
                 dcmlg_dtan * dtan_dih
-- 
2.43.0


From bfa5109c60e5a2fe2137ee7f209f26bd97013f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 039/101] fix: sweep distribution partials of
 BWBUpdateDetailedWingDist were misplaced

---
 aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
index 7293e37..ba33fe9 100644
--- a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
+++ b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
@@ -118,8 +118,8 @@ class BWBUpdateDetailedWingDist(om.ExplicitComponent):
                 val=1,
             )
 
-            rows = np.arange(nn - 3) + 2
-            cols = np.arange(nn - 3) + 1
+            rows = np.arange(nn - 2) + 1
+            cols = np.arange(nn - 2)
             self.declare_partials(
                 'BWB_LOAD_PATH_SWEEP_DISTRIBUTION',
                 Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION,
-- 
2.43.0


From 90c116ba7b1c47e0a34f788a40a9d5f7e719779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 040/101] fix: BWBFuselageParameters1 partials wrt aisle width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..b0d3e46 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,8 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
-        )
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+        ) / hydraulic_diameter
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
         ) / hydraulic_diameter
-- 
2.43.0


From 885d7935bffcc239909d4864dede00f0b84ee2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 041/101] fix: BWBFuselageSize partials wrt additional width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index b0d3e46..99eab6c 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -1082,7 +1082,7 @@ class BWBFuselageSize(om.ExplicitComponent):
         d_cabin_area_d_nose_area = 2.0
 
         d_aft_d_body_width = 2.0 * diag_a_c
-        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 * diag_a_c
+        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 / diag_a_a
         d_aft_d_aft_len = (
             2 * body_width - additional_width
         ) * aftbody_len / diag_a_c + cabin_height * aftbody_len / diag_a_a
-- 
2.43.0


From 0c4e38c8663c4e020cbb076e1476dacf2833bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 042/101] fix: BWBWingVolume partials lacked the main gear
 terms

---
 aviary/subsystems/geometry/gasp_based/wing.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 2969b13..590ff4c 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -612,7 +612,7 @@ class BWBWingVolume(om.ExplicitComponent):
 
         if smooth:
             WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = dSigmoidXdx(loc_main_gear, 0.0, mu) / mu
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
@@ -644,7 +644,9 @@ class BWBWingVolume(om.ExplicitComponent):
             1.0 + 2.0 * (0.5 * fuselage_width + WID_GRX) * (taper_ratio - 1.0) / wingspan
         )
         dCFUEL_dSWF = (taper_ratio - 1.0) * center_chort / wingspan
-        dCFUEL_dloc_main_gear = 2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) / wingspan
+        dCFUEL_dloc_main_gear = (
+            2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) * center_chort / wingspan
+        )
         dCFUEL_dtaper_ratio = 2.0 * (0.5 * fuselage_width + WID_GRX) * center_chort / wingspan
         dCFUEL_dwingspan = (
             -2.0
@@ -664,7 +666,10 @@ class BWBWingVolume(om.ExplicitComponent):
             -0.5 * (CFUEL + taper_ratio * center_chort)
             + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dSWF
         )
-        dSW_NFX_dloc_main_gear = -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+        dSW_NFX_dloc_main_gear = (
+            -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+            + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dloc_main_gear
+        )
         dSW_NFX_dtaper_ratio = (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * (
             dCFUEL_dtaper_ratio + center_chort
         )
@@ -700,7 +705,11 @@ class BWBWingVolume(om.ExplicitComponent):
             - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dSWF / SW_NFX**2
         )
         dAR_NFX_dloc_main_gear = (
-            -((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
+            -4.0
+            * dWID_GRX_dloc_main_gear
+            * (wingspan - fuselage_width - 2.0 * WID_GRX)
+            / SW_NFX
+            - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dloc_main_gear / SW_NFX**2
         )
         dAR_NFX_dwingspan = (
             2 * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
-- 
2.43.0


From 5d649c435277edc03ffc2e07cbba4f4b53f30ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 043/101] fix: nacelle diameter factor derivative ignored the
 number of engines of each type

---
 aviary/subsystems/mass/flops_based/distributed_prop.py |  7 ++++---
 aviary/subsystems/mass/flops_based/starter.py          | 10 +++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/distributed_prop.py b/aviary/subsystems/mass/flops_based/distributed_prop.py
index 8edab19..ca29c53 100644
--- a/aviary/subsystems/mass/flops_based/distributed_prop.py
+++ b/aviary/subsystems/mass/flops_based/distributed_prop.py
@@ -66,7 +66,7 @@ def distributed_nacelle_diam_factor(diam_nacelle: list, num_eng: list) -> float:
 def distributed_nacelle_diam_factor_deriv(num_eng: int) -> float:
     """
     Returns the derivative of the distributed propulsion nacelle average diameter factor
-    w.r.t. the global nacelle average diameter.
+    w.r.t. the nacelle average diameter of each engine model.
 
     Parameters
     ----------
@@ -75,12 +75,13 @@ def distributed_nacelle_diam_factor_deriv(num_eng: int) -> float:
     """
     try:
         total_num_engines = sum(num_eng)
+        deriv = np.asarray(num_eng) / total_num_engines
     except TypeError:
         total_num_engines = num_eng
+        deriv = 1.0
 
-    deriv = 1.0
     if total_num_engines > 4:
-        deriv = num_eng * (0.5 * total_num_engines**0.5) / total_num_engines
+        deriv = deriv * (0.5 * total_num_engines**0.5)
 
     return deriv
 
diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..f6ef4d0 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -68,23 +68,23 @@ class TransportStarterMass(om.ExplicitComponent):
 
         diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From 047556ebda8491c8c233807c9b026d90294393b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 044/101] fix: TransportFuelSystemMass partials lacked the
 engine count factor

---
 aviary/subsystems/mass/flops_based/fuel_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/fuel_system.py b/aviary/subsystems/mass/flops_based/fuel_system.py
index 5e37d5b..c583d9d 100644
--- a/aviary/subsystems/mass/flops_based/fuel_system.py
+++ b/aviary/subsystems/mass/flops_based/fuel_system.py
@@ -52,7 +52,7 @@ class TransportFuelSystemMass(om.ExplicitComponent):
             1.07
             * 0.58
             * capacity**-0.42
-            * num_eng**0.43
+            * num_eng_fact**0.43
             * max_mach**0.34
             * scaler
             / GRAV_ENGLISH_LBM
-- 
2.43.0


From 6e87107bd321a0658740bbce3b99555b3313e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 045/101] fix: SurfaceControlMass partials lacked the control
 mass scaler

---
 aviary/subsystems/mass/gasp_based/control.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..7ff366e 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -250,19 +250,23 @@ class SurfaceControlMass(om.ExplicitComponent):
             Aircraft.Wing.SURFACE_CONTROL_MASS_COEFFICIENT,
         ] = dSCW_dSWCC / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = dSCW_dWA / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = (
+            CK18 * dSCW_dWA / GRAV_ENGLISH_LBM
+        )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Design.GROSS_MASS] = CK18 * dSCW_dWG
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
-            dSCW_dULF / GRAV_ENGLISH_LBM
+            CK18 * dSCW_dULF / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.SURFACE_CONTROL_MASS_SCALER] = (
             intermediate_control_wt - intermediate_cockpit_control_wt
         ) / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = dSCW_dMDV / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = (
+            CK18 * dSCW_dMDV / GRAV_ENGLISH_LBM
+        )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Controls.COCKPIT_CONTROL_MASS] = -CK18 / CK15
 
-- 
2.43.0


From bf67139148cc411a242eb031a569fcd93e42517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 046/101] fix: LoadSpeeds partials were overwritten for
 structural category 1

---
 aviary/subsystems/mass/gasp_based/design_load.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..300ec80 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
-- 
2.43.0


From 1d983fc5f9164613bb799a9b49ccba5f1b91d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 047/101] fix: LoadParameters partials used the wrong smoothing
 terms

---
 aviary/subsystems/mass/gasp_based/design_load.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 300ec80..f850705 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -508,7 +508,7 @@ class LoadParameters(om.ExplicitComponent):
                     / 0.6820
                     + ddensity_ratio_dmax_airspeed
                     * sigmoidX(density_ratio / 0.6820, 1, 0.01)
-                    * SigF
+                    * SigE
                     + density_ratio
                     * (
                         dSigmoidXdx(density_ratio / 0.6820, 1, 0.01)
@@ -544,8 +544,8 @@ class LoadParameters(om.ExplicitComponent):
                         * ddensity_ratio_dmax_airspeed
                         / 0.53281
                         * SigE
-                        + sigmoidX(density_ratio / 0.53281, 1, -0.01)
-                        * SigF
+                        + sigmoidX(density_ratio / 0.53281, 1, 0.01)
+                        * DSigF
                         * -ddensity_ratio_dmax_airspeed
                     )
                     + DSigF * ddensity_ratio_dmax_airspeed
-- 
2.43.0


From cda2b048ae209be08fd16e475ebeb6e7c77d962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 048/101] fix: LoadFactors partials wrt dive speed and in the
 smoothed branches

---
 .../subsystems/mass/gasp_based/design_load.py | 50 ++++++++++++++++---
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index f850705..5b40fee 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -820,9 +820,9 @@ class LoadFactors(om.ExplicitComponent):
         ) / (498.0 * wing_loading)
         ddive_load_factor_dCl_alpha = (
             dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-            + k_load_factor * 50 * min_dive_vel
+            + k_load_factor * 25 * min_dive_vel
         ) / (498.0 * wing_loading)
-        (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
+        ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
         ddive_load_factor_dV9 = 0.0
 
         dgust_load_factor_dwing_loading = dquotient(
@@ -847,13 +847,12 @@ class LoadFactors(om.ExplicitComponent):
         if smooth:
             SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
             SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-            DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
             DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
             gust_load_factor_1 = dive_load_factor * SigG + cruise_load_factor * SigH
             dgust_load_factor_dwing_loading = (
                 ddive_load_factor_dwing_loading * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -862,7 +861,7 @@ class LoadFactors(om.ExplicitComponent):
                 )
                 + dcruise_load_factor_dwing_loading * SigH
                 + cruise_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (cruise_load_factor - dive_load_factor),
                     dive_load_factor,
@@ -873,7 +872,7 @@ class LoadFactors(om.ExplicitComponent):
             dgust_load_factor_ddensity_ratio = (
                 ddive_load_factor_ddensity_ratio * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -949,6 +948,25 @@ class LoadFactors(om.ExplicitComponent):
                     ddive_load_factor_dV9,
                 )
             )
+            dgust_load_factor_dmin_dive_vel = (
+                ddive_load_factor_dmin_dive_vel * SigG
+                + dive_load_factor
+                * DSigH
+                * dquotient(
+                    (dive_load_factor - cruise_load_factor),
+                    dive_load_factor,
+                    ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+                + cruise_load_factor
+                * DSigH
+                * dquotient(
+                    (cruise_load_factor - dive_load_factor),
+                    dive_load_factor,
+                    -ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+            )
             gust_load_factor = gust_load_factor_1
         else:
             if cruise_load_factor > dive_load_factor:  # note: this creates a discontinuity
@@ -1082,7 +1100,25 @@ class LoadFactors(om.ExplicitComponent):
                     dgust_load_factor_dV9,
                 )
             )
-            dULF_dmin_dive_vel = 0.0
+            dULF_dmin_dive_vel = 1.5 * (
+                dgust_load_factor_dmin_dive_vel * SigK
+                + gust_load_factor
+                * DSigL
+                * dquotient(
+                    (gust_load_factor - max_maneuver_factor),
+                    gust_load_factor,
+                    dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+                + max_maneuver_factor
+                * DSigL
+                * dquotient(
+                    (max_maneuver_factor - gust_load_factor),
+                    gust_load_factor,
+                    -dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+            )
         else:
             if gust_load_factor > max_maneuver_factor:  # note: this creates a discontinuity
                 dULF_dmax_maneuver_factor = 0.0
-- 
2.43.0


From 2661740639974d6f2c170237a24b0fd04d8a1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 049/101] fix: BWBLoadFactors partials wrt dive speed and in
 the smoothed branches

---
 .../subsystems/mass/gasp_based/design_load.py | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 5b40fee..50bd89f 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -1840,7 +1840,7 @@ class BWBLoadFactors(om.ExplicitComponent):
             ) / (498.0 * wing_loading)
             ddive_load_factor_dCl_alpha = (
                 dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-                + k_load_factor * 50 * min_dive_vel
+                + k_load_factor * 25 * min_dive_vel
             ) / (498.0 * wing_loading)
             ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (
                 498.0 * wing_loading
@@ -1851,13 +1851,12 @@ class BWBLoadFactors(om.ExplicitComponent):
             if smooth:
                 SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
                 SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-                DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
                 DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
                 gust_load_factor = dive_load_factor * SigG + cruise_load_factor * SigH
                 dgust_load_factor_dgross_mass = (
                     ddive_load_factor_dgross_mass * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1866,7 +1865,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dgross_mass * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1877,7 +1876,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_dexp_wing_areas = (
                     ddive_load_factor_dexp_wing_areas * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1886,7 +1885,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dexp_wing_areas * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1897,7 +1896,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_ddensity_ratio = (
                     ddive_load_factor_ddensity_ratio * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1973,7 +1972,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                         ddive_load_factor_dV9,
                     )
                 )
-                dgust_loading_dmin_dive_vel = (
+                dgust_load_factor_dmin_dive_vel = (
                     ddive_load_factor_dmin_dive_vel * SigG
                     + dive_load_factor
                     * DSigH
@@ -2172,7 +2171,25 @@ class BWBLoadFactors(om.ExplicitComponent):
                         dgust_load_factor_dV9,
                     )
                 )
-                dULF_dmin_dive_vel = 0.0
+                dULF_dmin_dive_vel = 1.5 * (
+                    dgust_load_factor_dmin_dive_vel * SigK
+                    + gust_load_factor
+                    * DSigL
+                    * dquotient(
+                        (gust_load_factor - max_maneuver_factor),
+                        gust_load_factor,
+                        dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                    + max_maneuver_factor
+                    * DSigL
+                    * dquotient(
+                        (max_maneuver_factor - gust_load_factor),
+                        gust_load_factor,
+                        -dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                )
             else:
                 if gust_load_factor > max_maneuver_factor:
                     # ULF = 1.5 * gust_load_factor
-- 
2.43.0


From 3ea087afd876365b8e089c13d13206add032a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 050/101] fix: TotalEngineMass pylon partials lacked the pylon
 factor

---
 aviary/subsystems/mass/gasp_based/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..7549980 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
-- 
2.43.0


From 937a2d0bf93fce6036f07198256b529e53a92094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 051/101] fix: WingMountEngineMass partials lacked the
 additional mass of the engines

---
 aviary/subsystems/mass/gasp_based/engine.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 7549980..d65e30c 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -508,7 +508,6 @@ class WingMountEngineMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
         num_engine_type = len(num_engines)
-        c_instl = self.options[Aircraft.Engine.ADDITIONAL_MASS_FRACTION]
 
         eng_spec_wt = inputs[Aircraft.Engine.MASS_SPECIFIC] * GRAV_ENGLISH_LBM
         Fn_SLS = inputs[Aircraft.Engine.SCALED_SLS_THRUST]
@@ -531,7 +530,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
@@ -539,8 +538,6 @@ class WingMountEngineMass(om.ExplicitComponent):
         span_frac_factor_sum = np.zeros(num_engine_type, dtype=Fn_SLS.dtype)
         wing_mass_deriv = np.zeros(len(span_frac_factor), dtype=Fn_SLS.dtype)
         idx = 0
-        # wing_mass_vec = (eng_spec_wt * Fn_SLS * (1 + c_instl) +
-        #                 sec_wt + prop_wt) * num_engines
         wing_mass_vec = (dry_wt_eng + eng_instl_wt + pod_wt + prop_wt) * num_engines
         for i in range(num_engine_type):
             span_frac_factor_sum[i] = sum(span_frac_factor[idx : idx + num_engines[i]])
-- 
2.43.0


From a0a4d30080cbd2135568cc6af7741e074826b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 052/101] fix: HorizontalTailMass partials lacked the tail mass
 scaler

---
 aviary/subsystems/mass/gasp_based/fixed.py | 34 +++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..f46f188 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -660,6 +660,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         htail_mom_arm = inputs[Aircraft.HorizontalTail.MOMENT_ARM]
         tc_ratio_root_htail = inputs[Aircraft.HorizontalTail.THICKNESS_TO_CHORD]
         root_chord_htail = inputs[Aircraft.HorizontalTail.ROOT_CHORD]
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
 
         FH = (
             gross_wt_initial
@@ -725,7 +726,8 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -737,7 +739,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_area ** (-0.46)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            350.0
+            CK9
+            * 350.0
             * 0.54
             * (
                 htail_area
@@ -749,7 +752,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dGrossWtInitial
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -762,7 +766,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dCoefHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -775,7 +780,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dFusLen
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -788,7 +794,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dSpanHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -801,7 +808,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dHookFac
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -814,7 +822,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dTaperRatioHtail
         )
         J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (htail_area * FH / (100.0 * htail_mom_arm * tc_ratio_root_htail * root_chord_htail))
@@ -823,7 +832,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -836,7 +846,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_mom_arm ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -849,7 +860,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * tc_ratio_root_htail ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
-- 
2.43.0


From 0d2db4bc107e0e81ba2db74e72c20c0ffe3fcad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 053/101] fix: VerticalTailMass partials lacked the tail mass
 scaler

---
 aviary/subsystems/mass/gasp_based/fixed.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index f46f188..07ca736 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -1037,6 +1037,7 @@ class VerticalTailMass(om.ExplicitComponent):
         vtail_mom_arm = inputs[Aircraft.VerticalTail.MOMENT_ARM]
         tc_ratio_root_vtail = inputs[Aircraft.VerticalTail.THICKNESS_TO_CHORD]
         root_chord_vtail = inputs[Aircraft.VerticalTail.ROOT_CHORD]
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
 
         tan_sweep_vtail_LE = (1.0 - taper_ratio_vtail) / (
             1.0 + taper_ratio_vtail
@@ -1197,7 +1198,8 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
         temp = (
-            380.0
+            CK10
+            * 380.0
             * (
                 vtail_area
                 * np.log10(min_dive_vel)
@@ -1272,7 +1274,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 vtail_area
@@ -1286,7 +1289,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1298,7 +1302,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_area ** (-0.46)
         )
         J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1311,7 +1316,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1324,7 +1330,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_mom_arm ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1337,7 +1344,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * tc_ratio_root_vtail ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
-- 
2.43.0


From 203999c8cde89636839c3f3b8f18282919254744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 054/101] fix: BodyTankCalculations smoothed partials

---
 aviary/subsystems/mass/gasp_based/fuel.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..7ba6df2 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -266,14 +266,8 @@ class BodyTankCalculations(om.ExplicitComponent):
                 sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                 + (req_fuel_wt - max_wingfuel_wt)
                 * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
-                * 1
-                / 50
             )
-            dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
-                (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
-            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
-                req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
-            ) * (-1 / 50)
+            dextra_fuel_wt_dmax_wingfuel_wt = -dextra_fuel_wt_dreq_fuel_wt
         else:
             if extra_fuel_wt < 0:
                 extra_fuel_wt = 0.0
@@ -288,7 +282,6 @@ class BodyTankCalculations(om.ExplicitComponent):
         dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
         dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
         if smooth:
-            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
             dwingfuel_wt_min_dfuel_wt_min = (
                 dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
@@ -315,6 +308,7 @@ class BodyTankCalculations(om.ExplicitComponent):
                 dwingfuel_wt_min_drho_fuel * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_drho_fuel
             )
+            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
         else:
             if wingfuel_wt_min < 0.0:
                 wingfuel_wt_min = 0.0
-- 
2.43.0


From de42c7fffdec6acbd8c2302951a279a4bd34e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 055/101] fix: BWBFuselageMass partials lacked the fuselage
 mass scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 7ba6df2..785dc1f 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1189,6 +1189,7 @@ class BWBFuselageMass(om.ExplicitComponent):
         area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
         uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         dFusWt_dc_fuselage = (
             1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
@@ -1204,14 +1205,14 @@ class BWBFuselageMass(om.ExplicitComponent):
         dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
         dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
-        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = dFusWt_darea_cabin
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = CK11 * dFusWt_dc_fuselage
+        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = CK11 * dFusWt_dgross_wt_initial
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = CK11 * dFusWt_darea_cabin
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL] = (
-            dFusWt_darea_aft_to_total
+            CK11 * dFusWt_darea_aft_to_total
         )
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = dFusWt_duwt_aft
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = dFusWt_dfus_SA
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = CK11 * dFusWt_duwt_aft
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = CK11 * dFusWt_dfus_SA
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = (
             c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
             + c_fuselage * fus_SA * area_aft_to_total * uwt_aft
-- 
2.43.0


From 9c36f8eac7bb73435c3eb4e2ab7cab13774d26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 056/101] fix: furnishings mass crashed for mid-width
 fuselages, smoothing and partials were wrong

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index dfc3a8c..9f51803 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -95,7 +95,7 @@ def common_compute(
             )
             furnishing_wt_2 = CPX * PAX + 310.0
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         furnishing_wt = smooth_max(furnishing_wt, 30.0, mu)
     else:
         if gross_wt_init <= 10000.0:
@@ -121,7 +121,7 @@ def common_compute(
                     + 0.5 * acabin
                 )
             else:
-                CPX_lin = 28.0 + 10.516 * (cabin_width - 5.667)
+                CPX = 28.0 + 10.516 * (cabin_width - 5.667)
                 if cabin_width <= 5.667:
                     CPX = 28.0
                 elif cabin_width > 8.90:
@@ -198,7 +198,6 @@ def common_compute_partials(
             dCPX_dcabin_width_2 = (
                 1 * dSigmoidXdx(CPX_lin / 28, 1, 0.01) * -dCPX_lin_dcabin_width
                 + dCPX_lin_dcabin_width
-                * CPX_lin
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * sigmoidX(CPX_lin / 62, 1, -0.01)
                 + CPX_lin
@@ -210,7 +209,7 @@ def common_compute_partials(
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * dSigmoidXdx(CPX_lin / 62, 1, -0.01)
                 / 62
-                * -dCPX_lin_dcabin_width
+                * dCPX_lin_dcabin_width
                 + 1 * dSigmoidXdx(CPX_lin / 62, 1, 0.01) * dCPX_lin_dcabin_width
             )
 
@@ -222,7 +221,7 @@ def common_compute_partials(
 
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
         dsmoother_dgross_wt_init = dSigmoidXdx(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         dfurnishing_wt_dcabin_width = (
             1 - smoother
         ) * dfurnishing_wt_dcabin_width_1 + smoother * dfurnishing_wt_dcabin_width_2
@@ -295,14 +294,14 @@ def common_compute_partials(
                 dfurnishing_wt_dscaler = dfurnishing_wt_additional_dscaler + 0.0
                 dfurnishing_wt_dacabin = dfurnishing_wt_additional_dacabin + 0.5
             else:
-                CPX_lin = 28.0 + 10.516 * (cabin_width - 5.667)
+                CPX = 28.0 + 10.516 * (cabin_width - 5.667)
                 if cabin_width <= 5.667:
                     CPX = 28.0
                 elif cabin_width > 8.90:
                     CPX = 62.0
                 furnishing_wt = CPX * PAX + 310.0
 
-                dCPX_lin_dcabin_width = 10.516
+                dCPX_dcabin_width = 10.516
                 if cabin_width <= 5.667:
                     dCPX_dcabin_width = 0.0
                 if cabin_width > 8.90:
-- 
2.43.0


From 8214f46530f762fbe195c7ebeab70d66419e8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 057/101] fix: TotalLandingGearMass partials lacked the gear
 mass scaler and used one engine only

---
 aviary/subsystems/mass/gasp_based/landing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..634e9ee 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -114,6 +114,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         wing_loc = inputs[Aircraft.Wing.VERTICAL_MOUNT_LOCATION]
         clearance_ratio = inputs[Aircraft.Nacelle.CLEARANCE_RATIO]
         nacelle_diam = inputs[Aircraft.Nacelle.AVG_DIAMETER]
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
 
         val = (1.0 + clearance_ratio) * nacelle_diam
         gear_height_temp = KSfunction.compute(val, 50.0)
@@ -140,36 +141,37 @@ class TotalLandingGearMass(om.ExplicitComponent):
         dGH_dND = (
             sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
             + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+            - 6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
+        ) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
+        dLGW_dCR = (
             (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
             * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
         )
 
-        dLGW_dND = max(
+        dLGW_dND = (
             (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
             * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From d034b8712e396f2ff3b91bad12c86468e4816563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 058/101] fix: complex step derivative of the smoothed int
 function

---
 aviary/utils/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..ec8bd08 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -219,7 +219,7 @@ def smooth_int_tanh(x, mu=10.0):
     """
     Smooth approximation of int(x) using tanh.
     """
-    f = np.floor(x.real) + x.imag * 1j
+    f = np.floor(x.real)
     frac = x - f
     t = np.tanh(mu * (frac - 0.5))
     s = 0.5 * (t + 1)
@@ -232,7 +232,7 @@ def d_smooth_int_tanh(x, mu=10.0):
     Smooth approximation of int(x) using tanh.
     Returns (y, dy_dx).
     """
-    f = np.floor(x.real) + x.imag * 1j
+    f = np.floor(x.real)
     frac = x - f
     t = np.tanh(mu * (frac - 0.5))
     dy_dx = 0.5 * mu * (1 - t**2)
-- 
2.43.0


From 893ccd52517c56b9e39fc51f1d483fd32903452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 059/101] fix: share of engine length outside the fuselage took
 only the first engine type

---
 .../subsystems/geometry/gasp_based/engine.py  | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/engine.py b/aviary/subsystems/geometry/gasp_based/engine.py
index c8f94df..1d27cb7 100644
--- a/aviary/subsystems/geometry/gasp_based/engine.py
+++ b/aviary/subsystems/geometry/gasp_based/engine.py
@@ -127,36 +127,36 @@ class PercentNotInFuselage(om.ExplicitComponent):
         )
 
     def compute(self, inputs, outputs):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            pct_swn = g1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            pct_swn = g2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        outputs['percent_exposed'] = pct_swn
+        for i, x in enumerate(inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                pct_swn = g1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                pct_swn = g2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            outputs['percent_exposed'][i] = pct_swn
 
     def compute_partials(self, inputs, J):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            d_pct_swn = dg1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            d_pct_swn = dg2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE] = d_pct_swn
+        for i, x in enumerate(inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                d_pct_swn = dg1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                d_pct_swn = dg2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE][i] = d_pct_swn
 
 
 class GASPEngineDiameter(om.ExplicitComponent):
-- 
2.43.0


From 98d85cf391324a4a4bfdbd92e8fa372715ba2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 060/101] fix: BWB aft body mass with several engine types

---
 aviary/subsystems/mass/flops_based/fuselage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/fuselage.py b/aviary/subsystems/mass/flops_based/fuselage.py
index 478b910..1787fcb 100644
--- a/aviary/subsystems/mass/flops_based/fuselage.py
+++ b/aviary/subsystems/mass/flops_based/fuselage.py
@@ -1,3 +1,4 @@
+import numpy as np
 import openmdao.api as om
 
 from aviary.constants import GRAV_ENGLISH_LBM
@@ -244,7 +245,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         verbosity = self.options[Settings.VERBOSITY]
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
@@ -282,7 +283,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
         outputs[Aircraft.Wing.BWB_AFTBODY_MASS] = aftbody_weight_adjusted / GRAV_ENGLISH_LBM
 
     def compute_partials(self, inputs, J):
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
-- 
2.43.0


From 24260dcf571b3ad33e5a299ff189c6943f74b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 061/101] fix: empty mass with alternative masses ignored a
 given systems and equipment mass

---
 .../mass/flops_based/mass_summation.py        | 55 +------------------
 1 file changed, 1 insertion(+), 54 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/mass_summation.py b/aviary/subsystems/mass/flops_based/mass_summation.py
index 1352c48..8d27d81 100644
--- a/aviary/subsystems/mass/flops_based/mass_summation.py
+++ b/aviary/subsystems/mass/flops_based/mass_summation.py
@@ -302,26 +302,13 @@ class AltSystemsEquipmentMass(om.ExplicitComponent):
 
 
 class EmptyMassGroup(om.Group):
-    def initialize(self):
-        add_aviary_option(self, Aircraft.Design.USE_ALT_MASS)
-
     def setup(self):
-        alt_mass = self.options[Aircraft.Design.USE_ALT_MASS]
-
         # Empty mass margin is calculated here to avoid feedback loop
         self.add_subsystem(
             'empty_mass_margin', EmptyMassMargin(), promotes_inputs=['*'], promotes_outputs=['*']
         )
 
-        if alt_mass:
-            self.add_subsystem(
-                'empty_mass', AltEmptyMass(), promotes_inputs=['*'], promotes_outputs=['*']
-            )
-
-        else:
-            self.add_subsystem(
-                'empty_mass', EmptyMass(), promotes_inputs=['*'], promotes_outputs=['*']
-            )
+        self.add_subsystem('empty_mass', EmptyMass(), promotes_inputs=['*'], promotes_outputs=['*'])
 
 
 class EmptyMass(om.ExplicitComponent):
@@ -349,46 +336,6 @@ class EmptyMass(om.ExplicitComponent):
         )
 
 
-class AltEmptyMass(om.ExplicitComponent):
-    def setup(self):
-        add_aviary_input(self, Aircraft.Design.EMPTY_MASS_MARGIN, units='lbm')
-        add_aviary_input(self, Aircraft.Design.STRUCTURE_MASS, units='lbm')
-        add_aviary_input(self, Aircraft.Propulsion.MASS, units='lbm')
-        add_aviary_input(self, Aircraft.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE, units='lbm')
-        add_aviary_input(self, Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS, units='lbm')
-
-        add_aviary_output(self, Aircraft.Design.EMPTY_MASS, units='lbm')
-
-    def setup_partials(self):
-        self.declare_partials(
-            Aircraft.Design.EMPTY_MASS,
-            [
-                Aircraft.Design.STRUCTURE_MASS,
-                Aircraft.Propulsion.MASS,
-                Aircraft.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE,
-            ],
-            val=1.01,
-        )
-        self.declare_partials(
-            Aircraft.Design.EMPTY_MASS,
-            [Aircraft.Design.EMPTY_MASS_MARGIN, Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS],
-            val=1.0,
-        )
-
-    def compute(self, inputs, outputs):
-        structure_mass = inputs[Aircraft.Design.STRUCTURE_MASS]
-        prop_mass = inputs[Aircraft.Propulsion.MASS]
-        sys_equip_mass_base = inputs[Aircraft.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE]
-        empty_mass_margin = inputs[Aircraft.Design.EMPTY_MASS_MARGIN]
-        subsystems_mass = inputs[Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS]
-
-        outputs[Aircraft.Design.EMPTY_MASS] = (
-            1.01 * (structure_mass + prop_mass + sys_equip_mass_base)
-            + empty_mass_margin
-            + subsystems_mass
-        )
-
-
 class OperatingItemsMass(om.ExplicitComponent):
     def setup(self):
         add_aviary_input(self, Aircraft.CrewPayload.CARGO_CONTAINER_MASS, units='lbm')
-- 
2.43.0


From dc4b9899bd53be1783a68e6914c0dbc629a8e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 062/101] fix: passenger payload mass ignored given passenger
 and baggage masses

---
 aviary/subsystems/mass/flops_based/payload.py | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/payload.py b/aviary/subsystems/mass/flops_based/payload.py
index 7bfa490..37da972 100644
--- a/aviary/subsystems/mass/flops_based/payload.py
+++ b/aviary/subsystems/mass/flops_based/payload.py
@@ -13,6 +13,9 @@ from aviary.variable_info.variables import Aircraft
 class PayloadGroup(om.Group):
     def setup(self):
         self.add_subsystem('cargo_mass', CargoMass(), promotes_inputs=['*'], promotes_outputs=['*'])
+        self.add_subsystem(
+            'pax_mass', PaxMass(), promotes_inputs=['*'], promotes_outputs=['*']
+        )
         self.add_subsystem(
             'pax_payload_mass', PaxPayloadMass(), promotes_inputs=['*'], promotes_outputs=['*']
         )
@@ -63,8 +66,8 @@ class CargoMass(om.ExplicitComponent):
         outputs[Aircraft.CrewPayload.CARGO_MASS] = wing_cargo + misc_cargo
 
 
-class PaxPayloadMass(om.ExplicitComponent):
-    """Calculate the mass of passengers and their baggage."""
+class PaxMass(om.ExplicitComponent):
+    """Calculate the mass of passengers and the mass of their baggage."""
 
     def initialize(self):
         add_aviary_option(self, Aircraft.CrewPayload.NUM_PASSENGERS)
@@ -75,7 +78,6 @@ class PaxPayloadMass(om.ExplicitComponent):
 
         add_aviary_output(self, Aircraft.CrewPayload.PASSENGER_MASS_TOTAL, units='lbm')
         add_aviary_output(self, Aircraft.CrewPayload.BAGGAGE_MASS, units='lbm')
-        add_aviary_output(self, Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS, units='lbm')
 
     def setup_partials(self):
         passenger_count = self.options[Aircraft.CrewPayload.NUM_PASSENGERS]
@@ -91,24 +93,30 @@ class PaxPayloadMass(om.ExplicitComponent):
             ],
             val=passenger_count,
         )
-        self.declare_partials(
-            Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS,
-            [
-                Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER,
-                Aircraft.CrewPayload.MASS_PER_PASSENGER,
-            ],
-            val=passenger_count,
-        )
 
     def compute(self, inputs, outputs):
         passenger_count = self.options[Aircraft.CrewPayload.NUM_PASSENGERS]
         mass_per_passenger = inputs[Aircraft.CrewPayload.MASS_PER_PASSENGER]
         baggage_mass_per_passenger = inputs[Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER]
 
-        pax_mass = mass_per_passenger * passenger_count
-        baggage_mass = baggage_mass_per_passenger * passenger_count
-        pax_payload = pax_mass + baggage_mass
+        outputs[Aircraft.CrewPayload.PASSENGER_MASS_TOTAL] = mass_per_passenger * passenger_count
+        outputs[Aircraft.CrewPayload.BAGGAGE_MASS] = baggage_mass_per_passenger * passenger_count
+
+
+class PaxPayloadMass(om.ExplicitComponent):
+    """Calculate the mass of passengers and their baggage."""
+
+    def setup(self):
+        add_aviary_input(self, Aircraft.CrewPayload.PASSENGER_MASS_TOTAL, units='lbm')
+        add_aviary_input(self, Aircraft.CrewPayload.BAGGAGE_MASS, units='lbm')
+
+        add_aviary_output(self, Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS, units='lbm')
+
+    def setup_partials(self):
+        self.declare_partials(Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS, '*', val=1.0)
+
+    def compute(self, inputs, outputs):
+        pax_mass = inputs[Aircraft.CrewPayload.PASSENGER_MASS_TOTAL]
+        baggage_mass = inputs[Aircraft.CrewPayload.BAGGAGE_MASS]
 
-        outputs[Aircraft.CrewPayload.PASSENGER_MASS_TOTAL] = pax_mass
-        outputs[Aircraft.CrewPayload.BAGGAGE_MASS] = baggage_mass
-        outputs[Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS] = pax_payload
+        outputs[Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS] = pax_mass + baggage_mass
-- 
2.43.0


From 55d18824bde26029c71aa5dfff51127e97b3f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 063/101] fix: given strut and fold masses were not used
 without a strut or fold

---
 aviary/subsystems/mass/gasp_based/wing.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/wing.py b/aviary/subsystems/mass/gasp_based/wing.py
index a7dca01..cf155cb 100644
--- a/aviary/subsystems/mass/gasp_based/wing.py
+++ b/aviary/subsystems/mass/gasp_based/wing.py
@@ -700,19 +700,11 @@ class WingMassGroup(om.Group):
             'c_gear_loc',
             'half_sweep',
         ]
-        if self.options[Aircraft.Wing.HAS_FOLD] or self.options[Aircraft.Wing.HAS_STRUT]:
-            higher_level_inputs_total = ['*']
-        else:
-            higher_level_inputs_total = []
 
         # variables that are passed within the group but not used at a higher level
         connected_outputs_isolated = [
             'isolated_wing_mass',
         ]
-        connected_inputs_total = [
-            Aircraft.Wing.MASS_SCALER,
-            'isolated_wing_mass',
-        ]
 
         isolated_mass = self.add_subsystem(
             'isolated_mass',
@@ -730,7 +722,7 @@ class WingMassGroup(om.Group):
         self.add_subsystem(
             'total_mass',
             WingMassTotal(),
-            promotes_inputs=connected_inputs_total + higher_level_inputs_total,
+            promotes_inputs=['*'],
             promotes_outputs=['*'],
         )
 
@@ -760,19 +752,10 @@ class BWBWingMassGroup(om.Group):
         add_aviary_option(self, Aircraft.Wing.HAS_STRUT)
 
     def setup(self):
-        # variables that are calculated at a higher level
-        if self.options[Aircraft.Wing.HAS_FOLD] or self.options[Aircraft.Wing.HAS_STRUT]:
-            higher_level_inputs_total = ['*']
-        else:
-            higher_level_inputs_total = []
-
         # variables that are passed within the group but not used at a higher level
         connected_outputs_isolated = [
             'isolated_wing_mass',
         ]
-        connected_inputs_total = [
-            'isolated_wing_mass',
-        ]
 
         isolated_mass = self.add_subsystem(
             'isolated_mass',
@@ -790,7 +773,7 @@ class BWBWingMassGroup(om.Group):
         self.add_subsystem(
             'total_mass',
             WingMassTotal(),
-            promotes_inputs=connected_inputs_total + higher_level_inputs_total,
+            promotes_inputs=['*'],
             promotes_outputs=['*'],
         )
 
-- 
2.43.0


From 1b9f03979a9e6cb787cd3ab8258136f196335994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 064/101] fix: given GASP drag factors were not used in mission
 phases

---
 aviary/core/aviary_group.py                           |  3 ---
 .../subsystems/aerodynamics/aerodynamics_builder.py   | 11 +++++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..181010a 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -153,9 +153,6 @@ class AviaryGroup(om.Group):
             if ':' not in key or key.startswith('dynamic:'):
                 continue
 
-            if aviary_metadata[key]['option']:
-                continue
-
             # Skip anything that is not presently an input.
             if key not in all_prom_inputs:
                 continue
diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index c233be8..cddfa1d 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -886,32 +886,42 @@ ENGINE_SIZED_INPUTS = [
 AERO_2DOF_INPUTS = [
     Aircraft.Design.CG_DELTA,
     Aircraft.Design.DRAG_COEFFICIENT_INCREMENT,  # drag increment?
+    Aircraft.Design.EXCRESCENCE_DRAG_FACTOR,
+    Aircraft.Design.INTERFERENCE_DRAG_FACTOR,
+    Aircraft.Design.PERCENT_EXCRESCENCE_DRAG,
     Aircraft.Design.STATIC_MARGIN,
     Aircraft.Fuselage.AVG_DIAMETER,
+    Aircraft.Fuselage.DRAG_FACTOR,
     Aircraft.Fuselage.FLAT_PLATE_AREA_INCREMENT,
     Aircraft.Fuselage.LENGTH,
     Aircraft.Fuselage.WETTED_AREA,
     Aircraft.Fuselage.FORM_FACTOR,
     Aircraft.HorizontalTail.AREA,
     Aircraft.HorizontalTail.AVERAGE_CHORD,
+    Aircraft.HorizontalTail.DRAG_FACTOR,
     Aircraft.HorizontalTail.FORM_FACTOR,
     Aircraft.HorizontalTail.MOMENT_RATIO,
     Aircraft.HorizontalTail.SPAN,
     Aircraft.HorizontalTail.SWEEP,
     Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION,
     Aircraft.Nacelle.AVG_LENGTH,
+    Aircraft.Nacelle.DRAG_FACTOR,
     Aircraft.Nacelle.FORM_FACTOR,
+    Aircraft.Nacelle.PYLON_DRAG_FACTOR,
     Aircraft.Nacelle.SURFACE_AREA,
     Aircraft.Strut.AREA_RATIO,
     Aircraft.Strut.CHORD,
+    Aircraft.Strut.DRAG_FACTOR,
     Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.VerticalTail.AREA,
     Aircraft.VerticalTail.AVERAGE_CHORD,
+    Aircraft.VerticalTail.DRAG_FACTOR,
     Aircraft.VerticalTail.FORM_FACTOR,
     Aircraft.VerticalTail.SPAN,
     Aircraft.Wing.AVERAGE_CHORD,
     Aircraft.Wing.AREA,
     Aircraft.Wing.ASPECT_RATIO,
+    Aircraft.Wing.DRAG_FACTOR,
     Aircraft.Wing.FORM_FACTOR,
     Aircraft.Wing.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.Wing.MAX_THICKNESS_LOCATION,
@@ -944,6 +954,7 @@ AERO_LS_2DOF_INPUTS = [
 ]
 
 AERO_CLEAN_2DOF_INPUTS = [
+    Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
     Aircraft.Design.DRAG_DIVERGENCE_SHIFT,  # super drag shift?
     Aircraft.Design.LIFT_COEFFICIENT_MAX_FLAPS_UP,
     Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
-- 
2.43.0


From 50d68c579261b344df70b769a0d70f06e866860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 065/101] fix: given nacelle laminar flow fractions were not
 used in mission phases

---
 aviary/subsystems/aerodynamics/aerodynamics_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index cddfa1d..32435c6 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -574,6 +574,10 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
                     if val is None:
                         val = [0.0]  # _unspecified
                     units = meta['units']
+
+                    if var in aviary_inputs:
+                        val = aviary_inputs.get_val(var, units)
+
                     params[var] = {
                         'val': val,
                         'units': units,
-- 
2.43.0


From e398251ac77a0124f2fc5f35b2f3200c8040ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 066/101] fix: given takeoff rolling friction was not used in
 2DOF takeoff phases

---
 aviary/mission/two_dof/phases/takeoff_phase.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aviary/mission/two_dof/phases/takeoff_phase.py b/aviary/mission/two_dof/phases/takeoff_phase.py
index 1512587..113eb61 100644
--- a/aviary/mission/two_dof/phases/takeoff_phase.py
+++ b/aviary/mission/two_dof/phases/takeoff_phase.py
@@ -309,6 +309,7 @@ class TakeoffPhase(PhaseBuilder):
 
     def get_parameters(self):
         ground_roll = self.user_options.get_val('ground_roll')
+        rotation = self.user_options.get_val('rotation')
 
         params = {}
         params[Aircraft.Wing.INCIDENCE] = {
@@ -317,6 +318,13 @@ class TakeoffPhase(PhaseBuilder):
             'static_target': True,
         }
 
+        if ground_roll or rotation:
+            params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+                'shape': (1,),
+                'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+                'static_target': True,
+            }
+
         if ground_roll:
             params[Aircraft.Wing.AREA] = {
                 'shape': (1,),
-- 
2.43.0


From ba161e192ed119168681f752f210346408b3fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 067/101] fix: aircraft without design passengers or passenger
 mass with bags got zero instead of completed values

---
 aviary/utils/preprocessors.py       | 25 +++++++++++++++----------
 aviary/utils/process_input_decks.py | 20 ++++++++------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index aa9fb26..f896106 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -10,6 +10,7 @@ user is notified at run-time that something happened.
 import warnings
 
 import numpy as np
+from openmdao.utils.units import convert_units
 
 from aviary.utils.aviary_values import AviaryValues
 from aviary.utils.test_utils.variable_test import get_names_from_hierarchy
@@ -494,19 +495,23 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
             )
 
         # calculate passenger mass with bags based on user inputs.
-        try:
-            pax_mass_with_bag = aviary_options.get_val(
-                Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, 'lbm'
-            )
-        except KeyError:
-            pax_mass = aviary_options.get_val(Aircraft.CrewPayload.MASS_PER_PASSENGER, 'lbm')
-            bag_mass = aviary_options.get_val(
-                Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER, 'lbm'
-            )
-            pax_mass_with_bag = pax_mass + bag_mass
+        def passenger_mass(key):
+            if key in aviary_options:
+                return aviary_options.get_val(key, 'lbm')
+            return convert_units(meta_data[key]['default_value'], meta_data[key]['units'], 'lbm')
+
+        if Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS not in aviary_options and (
+            Aircraft.CrewPayload.MASS_PER_PASSENGER in aviary_options
+            or Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER in aviary_options
+        ):
+            pax_mass_with_bag = passenger_mass(
+                Aircraft.CrewPayload.MASS_PER_PASSENGER
+            ) + passenger_mass(Aircraft.CrewPayload.BAGGAGE_MASS_PER_PASSENGER)
             aviary_options.set_val(
                 Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, pax_mass_with_bag, 'lbm'
             )
+        else:
+            pax_mass_with_bag = passenger_mass(Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS)
 
         # calculate and check total payload
         # NOTE this is only used for error messaging, the calculations for analysis are subsystems/mass/gasp_based
diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 95f42db..1eb4bdb 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -78,12 +78,10 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=None):
 
     # TODO setting defaults for variables needed outside OM problem during load_inputs()
     aircraft_values.set_val(Settings.PROBLEM_TYPE, val=ProblemType.SIZING)
-    aircraft_values.set_val(Aircraft.CrewPayload.Design.NUM_PASSENGERS, val=0)
     aircraft_values.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, val=0, units='lbm')
     aircraft_values.set_val(Mission.RESERVE_FUEL_MARGIN, val=0)
     # these are used in initialization_guessing()
     aircraft_values.set_val(Aircraft.Design.CRUISE_ALTITUDE, val=25000.0, units='ft')
-    aircraft_values.set_val(Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, val=0, units='lbm')
 
     initialization_guesses = {
         # initialization_guesses is a dictionary that contains values used to initialize the trajectory
@@ -324,6 +322,12 @@ def initialization_guessing(aircraft_values: AviaryValues, initialization_guesse
     """
     problem_type = aircraft_values.get_val(Settings.PROBLEM_TYPE)
     num_pax = aircraft_values.get_val(Aircraft.CrewPayload.Design.NUM_PASSENGERS)
+    if Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS in aircraft_values:
+        pax_mass = aircraft_values.get_val(
+            Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, units='lbm'
+        )
+    else:
+        pax_mass = 0.0
     reserve_val = aircraft_values.get_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, units='lbm')
     reserve_frac = aircraft_values.get_val(Mission.RESERVE_FUEL_MARGIN, units='unitless')
     if initialization_guesses['fuel_burn_per_passenger_mile'] <= 0:
@@ -368,12 +372,7 @@ def initialization_guessing(aircraft_values: AviaryValues, initialization_guesse
             )
             mission_mass = (
                 initialization_guesses['operating_empty_mass']
-                + (
-                    num_pax
-                    * aircraft_values.get_val(
-                        Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, units='lbm'
-                    )
-                )
+                + num_pax * pax_mass
                 + fuel_mass
             )
         elif problem_type == ProblemType.OFF_DESIGN_MAX_RANGE or problem_type == ProblemType.SIZING:
@@ -389,10 +388,7 @@ def initialization_guessing(aircraft_values: AviaryValues, initialization_guesse
     if cruise_mass_final <= 0:
         cruise_mass_final = (
             initialization_guesses['operating_empty_mass']
-            + num_pax
-            * aircraft_values.get_val(
-                Aircraft.CrewPayload.MASS_PER_PASSENGER_WITH_BAGS, units='lbm'
-            )
+            + num_pax * pax_mass
             + reserves
         )
     # fraction of takeoff mass
-- 
2.43.0


From ee53cccf3e42061bad8e7585d1fa48a373c3b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 068/101] fix: passenger and cargo warnings tested or printed
 the wrong value

---
 aviary/utils/preprocessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index f896106..2209d01 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -257,7 +257,7 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
         if key in aviary_options:
             # mark that the user provided any information on design passenger count
             design_pax_provided = True
-            if key == Aircraft.CrewPayload.NUM_PASSENGERS:
+            if key == Aircraft.CrewPayload.Design.NUM_PASSENGERS:
                 design_pax_sum_provided = True
         else:
             # default all non-provided passenger info to 0
@@ -421,7 +421,6 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                 if des_cargo is not None:
                     if problem_type == ProblemType.SIZING and cargo != des_cargo:
                         # user has set all three check, if self consistent
-                        cargo = des_cargo
                         if verbosity >= Verbosity.BRIEF:  # BRIEF, VERBOSE, DEBUG
                             warnings.warn(
                                 f'Aircraft.CrewPayload.CARGO_MASS ({cargo} lbm) does not equal '
@@ -429,6 +428,7 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                                 'SIZING mission. Setting as-flown CARGO_MASS equal to '
                                 f'Design.CARGO_MASS ({des_cargo} lbm)'
                             )
+                        cargo = des_cargo
                 else:
                     # user has set cargo & max: assume des = max
                     des_cargo = max_cargo
-- 
2.43.0


From b67a09c8af6afe61ab5535a2f08c6b54d3173bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 069/101] fix: T-tail assumption counted one engine type only
 and failed without an aircraft type

---
 aviary/utils/preprocessors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 2209d01..beb9c51 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -613,13 +613,17 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
         if Aircraft.Engine.NUM_FUSELAGE_ENGINES in aviary_options:
             num_fulselage_engines = aviary_options.get_val(Aircraft.Engine.NUM_FUSELAGE_ENGINES)
             if isinstance(num_fulselage_engines, (list, np.ndarray)):
-                num_fulselage_engines = num_fulselage_engines[0]
+                # total over all engine types
+                num_fulselage_engines = int(np.sum(num_fulselage_engines))
 
         if Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION not in aviary_options:
             if (
                 Aircraft.Engine.NUM_FUSELAGE_ENGINES in aviary_options
                 and num_fulselage_engines > 1
-                and aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                and (
+                    Aircraft.Design.TYPE not in aviary_options
+                    or aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                )
             ):
                 HHT = 1
                 if verbosity >= Verbosity.BRIEF:
-- 
2.43.0


From 9d4ef7ec24c72e96641556bc3ca4bcbc6985d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 070/101] fix: fuel capacities that agree up to round-off were
 refused

---
 aviary/utils/preprocessors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index beb9c51..2c11382 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -712,7 +712,9 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
             )
 
             # check if the user inputs are self consistent (as far as possible at this stage!) Aviary can still calculate outputs at runtime.
-            if capacity_count == 3 and capacity_check != total_capacity:
+            # small differences are round-off, for example from unit conversion
+            consistent = np.isclose(capacity_check, total_capacity, rtol=1e-6)
+            if capacity_count == 3 and not consistent:
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity} lbm) is not equal to sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
@@ -720,7 +722,7 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
                     f'Aircraft.Fuel.AUXILIARY_FUEL_CAPACITY ({auxiliary_capacity} lbm)'
                     f'(total of {capacity_check} lbm)'
                 )
-            elif capacity_count < 3 and capacity_check > total_capacity:
+            elif capacity_count < 3 and capacity_check > total_capacity and not consistent:
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity}) is less than sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
-- 
2.43.0


From 3a8c7e207e659c18649487564901ae4a6e6eeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 071/101] fix: verbosity setting was never read when
 preprocessing propulsion

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 2c11382..adafdbc 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -766,7 +766,7 @@ def preprocess_propulsion(
         # compatibility with being passed int for verbosity
         verbosity = Verbosity(verbosity)
     else:
-        if verbosity in aviary_options:
+        if Settings.VERBOSITY in aviary_options:
             verbosity = aviary_options.get_val(Settings.VERBOSITY)
         else:
             verbosity = Verbosity.BRIEF
-- 
2.43.0


From e73b09388f37e0f83dd6a301ab78b2d8c3e89d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 072/101] fix: alternate furnishings mass was computed before
 the group masses it uses

---
 .../mass/flops_based/mass_premission.py          | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/mass_premission.py b/aviary/subsystems/mass/flops_based/mass_premission.py
index fcfcca5..78f694d 100644
--- a/aviary/subsystems/mass/flops_based/mass_premission.py
+++ b/aviary/subsystems/mass/flops_based/mass_premission.py
@@ -133,13 +133,6 @@ class MassPremission(om.Group):
                 promotes_outputs=['*'],
             )
 
-            self.add_subsystem(
-                'furnishings',
-                AltFurnishingsGroupMass(),
-                promotes_inputs=['*'],
-                promotes_outputs=['*'],
-            )
-
             self.add_subsystem(
                 'hydraulics',
                 AltHydraulicsGroupMass(),
@@ -326,4 +319,13 @@ class MassPremission(om.Group):
             'mass_summation', MassSummation(), promotes_inputs=['*'], promotes_outputs=['*']
         )
 
+        if alt_mass:
+            # uses the group masses of the summation, which does not need the result
+            self.add_subsystem(
+                'furnishings',
+                AltFurnishingsGroupMass(),
+                promotes_inputs=['*'],
+                promotes_outputs=['*'],
+            )
+
         self.set_input_defaults(Aircraft.Fuel.DENSITY, units='lbm/galUS')
-- 
2.43.0


From 5fa0062be302b939ef1b2ff87eb95cd8333b04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 073/101] fix: the temperature offset of the Atmosphere group
 was not used

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 2d776bd..8213142 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -47,7 +47,11 @@ class Atmosphere(om.Group):
 
         self.add_subsystem(
             name='standard_atmosphere',
-            subsys=AtmosphereComp(num_nodes=nn, h_def=h_def),
+            subsys=AtmosphereComp(
+                num_nodes=nn,
+                h_def=h_def,
+                delta_T_Celcius=self.options['delta_T_Celcius'],
+            ),
             promotes_inputs=[Dynamic.Mission.ALTITUDE],
             promotes_outputs=['*'],
         )
-- 
2.43.0


From f9eb431d1cd63f9ebf2fc92e7b24d3ba778ff308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 074/101] fix: slope of the speed of sound was with
 geopotential altitude for geometric altitudes

---
 aviary/subsystems/atmosphere/atmosphere.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 8213142..c98c0e9 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -204,8 +204,10 @@ class AtmosphereComp(om.ExplicitComponent):
         """
         table_points = self.source_data.alt
         h = inputs[Dynamic.Mission.ALTITUDE]
+        dz_dh = 1.0
 
         if self._geometric:
+            dz_dh = (self._R0 / (self._R0 + h)) ** 2
             # convert geometric into geopotential altitude
             h = (
                 h / (self._R0 + h) * self._R0
@@ -245,7 +247,7 @@ class AtmosphereComp(om.ExplicitComponent):
         # dsos_dh is only used for unsteady_solved_flight_conditions
         coeffs = self.source_data.akima_dT[idx]
         dT_dh = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
-        outputs['dsos_dh'] = 0.5 * (self._K * T) ** (-0.5) * dT_dh * self._K
+        outputs['dsos_dh'] = 0.5 * (self._K * T) ** (-0.5) * dT_dh * self._K * dz_dh
 
         # Equation 51
         outputs[Dynamic.Atmosphere.DYNAMIC_VISCOSITY] = (
@@ -266,9 +268,11 @@ class AtmosphereComp(om.ExplicitComponent):
         table_points = self.source_data.alt
         h = inputs[Dynamic.Mission.ALTITUDE]
         dz_dh = 1.0
+        d2z_dh2 = 0.0
 
         if self._geometric:
             dz_dh = (self._R0 / (self._R0 + h)) ** 2
+            d2z_dh2 = -2.0 * self._R0**2 / (self._R0 + h) ** 3
             h = h / (self._R0 + h) * self._R0  # Equation 19 from the original standard.
 
         # From this point forward, h is geopotential altitude (z in the original reference).
@@ -315,12 +319,12 @@ class AtmosphereComp(om.ExplicitComponent):
         coeffs = self.source_data.akima_dT[idx]
         lapse_rate = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
-        # dsos_dh = 0.5 * (self._K * T)**(-0.5) * lapse_rate * self._K
+        # dsos_dh = 0.5 * (self._K * T)**(-0.5) * lapse_rate * self._K * dz_dh
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
             -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (lapse_rate * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
-        )
+        ) * dz_dh**2 + 0.5 * (self._K * T) ** (-0.5) * lapse_rate * self._K * d2z_dh2
 
         partials[Dynamic.Atmosphere.TEMPERATURE, Dynamic.Mission.ALTITUDE][...] = dT_dh.ravel()
         partials[Dynamic.Atmosphere.STATIC_PRESSURE, Dynamic.Mission.ALTITUDE][...] = dP_dh.ravel()
@@ -338,4 +342,3 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From b8249386e50e23cd026c72e0ee4c066287cc6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 075/101] fix: initial guesses of one legacy conversion leaked
 into the next

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..c6faaed 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -61,7 +61,7 @@ def fortran_to_aviary(
     vehicle_data = {
         'input_values': NamedValues(),
         'unused_values': NamedValues(),
-        'initialization_guesses': initialization_guesses,
+        'initialization_guesses': initialization_guesses.copy(),
     }
 
     fortran_deck: Path = get_path(fortran_deck, verbosity=verbosity)
-- 
2.43.0


From 1e497e19a2c48f033e50e371adbc04ce8a47d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 076/101] fix: legacy variables were skipped when their name
 resembles a deprecated one

---
 aviary/utils/fortran_to_aviary.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index c6faaed..74ac1aa 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -18,7 +18,6 @@ ARNGE(1) = 3600 !target range in nautical miles
 
 import csv
 import getpass
-import re
 import warnings
 from datetime import datetime
 from pathlib import Path
@@ -320,8 +319,13 @@ def process_and_store_data(
     var_ind = data_units = None
     skip_variable = False
     # skip any variables that shouldn't get converted
-    if re.search(current_namelist + '.' + var_name, str(unused_vars), re.IGNORECASE):
+    full_name = current_namelist + '.' + var_name
+    if full_name.split('(')[0].upper() in [name.upper() for name in unused_vars]:
         return vehicle_data
+    # names are not case-sensitive
+    for special_name in special_unused_vars:
+        if full_name.upper() == special_name.upper():
+            full_name = special_name
     # remove any elements that are empty (caused by trailing commas or extra commas)
     data_list = [dat for dat in data.split(',') if dat != '']
     if len(data_list) > 0:
@@ -334,9 +338,7 @@ def process_and_store_data(
         skip_variable = True
         var_values = []
 
-    list_of_equivalent_aviary_names, var_ind = update_name(
-        alternate_names, current_namelist + '.' + var_name, verbosity
-    )
+    list_of_equivalent_aviary_names, var_ind = update_name(alternate_names, full_name, verbosity)
 
     # Fortran uses 1 indexing, Python uses 0 indexing
     fortran_offset = 1 if current_namelist else 0
@@ -1451,6 +1453,20 @@ gasp_scaler_variables = [
     Aircraft.Fuselage.WETTED_AREA,
 ]
 
+# legacy variables without an Aviary equivalent, the conversion of other variables depends on them
+special_unused_vars = [
+    'INGASP.FCFFT',
+    'INGASP.FCFHTT',
+    'INGASP.FCFNT',
+    'INGASP.FCFSTRT',
+    'INGASP.FCFVTT',
+    'INGASP.FCFWT',
+    'INGASP.FCKIT',
+    'INGASP.KNAC',
+    'MISSIN.fact',
+    'TOLIN.CLAPP',
+]
+
 initialization_guesses = {
     # initialization_guesses is a dictionary that contains values used to
     # initialize the trajectory
-- 
2.43.0


From d971adb4946e005eadec5b47b7b90e37dc271d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 077/101] fix: legacy variables after the namelist name on the
 same line were lost

---
 aviary/utils/fortran_to_aviary.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 74ac1aa..4ce5aea 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -205,18 +205,20 @@ def parse_input_file(
             terminate_namelist = False
 
             tmp = [*line.split('!', 1), '']
-            line, comment = tmp[0], tmp[1]  # anything after the first ! is a comment
+            line, comment = tmp[0].strip(), tmp[1]  # anything after the first ! is a comment
+
+            # Track when namelists are opened and closed
+            if line and line[0] in ['$', '&'] and current_tag == '':
+                current_tag = line[0]
+                # variables can follow on the same line
+                current_namelist, line = [*line[1:].split(None, 1), ''][:2]
 
             # remove all white space and trailing commas
             line = ''.join(line.split()).rstrip(',')
             if len(line.split()) == 0:
                 continue  # skip line if it contains only white space
 
-            # Track when namelists are opened and closed
-            if (line.lstrip()[0] in ['$', '&']) and current_tag == '':
-                current_tag = line.lstrip()[0]
-                current_namelist = line.split(current_tag)[1].split()[0]
-            elif (line.lstrip()[0] == current_tag) or (line.rstrip()[-1] == '/'):
+            if (line.lstrip()[0] == current_tag) or (line.rstrip()[-1] == '/'):
                 line = line.replace('/', '')
                 terminate_namelist = True
 
-- 
2.43.0


From 8f62c45973d72dfc146b0585a366b713929968ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 078/101] fix: legacy gear ratio was inverted twice or failed

---
 aviary/utils/fortran_to_aviary.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 4ce5aea..5c49fdd 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -348,15 +348,9 @@ def process_and_store_data(
         var_ind -= fortran_offset
 
     # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if current_namelist + '.' + var_name == 'INPROP.GR':
+    if full_name.upper() == 'INPROP.GR':
+        list_of_equivalent_aviary_names = [Aircraft.Engine.Gearbox.GEAR_RATIO]
         var_values = [1 / var for var in var_values]
-        vehicle_data['input_values'] = set_value(
-            Aircraft.Engine.Gearbox.GEAR_RATIO,
-            var_values,
-            vehicle_data['input_values'],
-            var_ind=var_ind,
-            units=data_units,
-        )
 
     for name in list_of_equivalent_aviary_names:
         if not skip_variable:
@@ -788,13 +782,6 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     # the mission
     input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])
 
-    # GEARBOX
-    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if Aircraft.Engine.Gearbox.GEAR_RATIO in input_values:
-        ratios = input_values.get_val(Aircraft.Engine.Gearbox.GEAR_RATIO)
-        ratios = [1 / val for val in ratios]
-        input_values.set_val(Aircraft.Engine.Gearbox.GEAR_RATIO, ratios, units='unitless')
-
     # CARGO
     if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
         if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
-- 
2.43.0


From 841eee0e5dea4ed13cf434432ac3c0fe074f239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 079/101] fix: explicit units in legacy decks were ignored

---
 aviary/utils/fortran_to_aviary.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 5c49fdd..9526331 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -360,10 +360,8 @@ def process_and_store_data(
                 continue
 
             elif name in CoreMetaData:
-                if current_namelist + '.' + var_name in default_values:
-                    data_units = default_values.get_item(current_namelist + '.' + var_name)[1]
-                else:
-                    data_units = None
+                if data_units is None and full_name in default_values:
+                    data_units = default_values.get_item(full_name)[1]
                 vehicle_data['input_values'] = set_value(
                     name,
                     var_values,
@@ -395,7 +393,13 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     If the new variable is part of a list, the current list will be extended if needed.
     """
     if var_name in value_dict:
-        current_value, units = value_dict.get_item(var_name)
+        current_value, current_units = value_dict.get_item(var_name)
+        if not units:
+            units = current_units
+        elif var_ind is not None and units != current_units:
+            # all elements of a list have the same units
+            var_value = [wrapped_convert_units((val, units), current_units) for val in var_value]
+            units = current_units
     else:
         current_value = None
         if var_name in CoreMetaData:
-- 
2.43.0


From 72ee1d2bab0afeb0942bb68fc8dc9e153c1ad146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 080/101] fix: blank first element of a legacy list

---
 aviary/utils/fortran_to_aviary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 9526331..e1fbf69 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -415,6 +415,8 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
             if var_ind > max_ind:
                 current_value.extend((var_ind - max_ind) * [0])
         else:
+            if current_value is None and var_name in CoreMetaData:
+                current_value = 0
             current_value = [current_value] + [0] * var_ind
         current_value[var_ind] = var_value[0]
         value_dict.set_val(var_name, current_value, units)
-- 
2.43.0


From ff00791086ef67e2f808b426937b8fb6d50ab3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 081/101] fix: Aviary names and initial guesses outside
 namelists were not recognised in legacy decks

---
 aviary/utils/fortran_to_aviary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index e1fbf69..f342cb9 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -460,6 +460,12 @@ def update_name(alternate_names, var_name, verbosity=Verbosity.BRIEF):
         var_ind = None
 
     all_equivalent_names = []
+    if var_name.startswith('.'):
+        # outside of any namelist: Aviary variable names and initial guesses are used directly
+        for key in (*CoreMetaData, *initialization_guesses):
+            if key.lower() == var_name[1:].lower():
+                return [key], var_ind
+
     for key, list_of_names in alternate_names.items():
         if list_of_names is not None:
             for altname in list_of_names:
-- 
2.43.0


From f2bfd2d0ca1336adf3d432303b4db14b1e751081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 082/101] fix: missing SAB in a legacy deck was reported as a
 KeyError

---
 aviary/utils/fortran_to_aviary.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index f342cb9..0fa719c 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -566,15 +566,19 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
         num_aisles = input_values.get_val(Aircraft.Fuselage.NUM_AISLES, 'unitless')[0]
         num_aisles = int(num_aisles)
         input_values.set_val(Aircraft.Fuselage.NUM_AISLES, [num_aisles], 'unitless')
-        num_seat_abreast_economy = input_values.get_val(
-            Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, 'unitless'
-        )[0]
-        num_seat_abreast_economy = int(num_seat_abreast_economy)
-        if num_seat_abreast_economy == 0:
-            num_seat_abreast_economy = 6
-        input_values.set_val(
-            Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, [num_seat_abreast_economy]
-        )
+        try:
+            num_seat_abreast_economy = int(
+                input_values.get_val(
+                    Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, 'unitless'
+                )[0]
+            )
+            if num_seat_abreast_economy == 0:
+                num_seat_abreast_economy = 6
+            input_values.set_val(
+                Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY, [num_seat_abreast_economy]
+            )
+        except:
+            pass
         try:
             num_seat_abreast_first = int(
                 input_values.get_val(
-- 
2.43.0


From 03e8bc93a33b985a95478a87ee057eca1959974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 083/101] fix: legacy tail data from the wing

---
 aviary/utils/fortran_to_aviary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 0fa719c..b2d12b0 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1227,7 +1227,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.TAPER_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.TAPER_RATIO)[0] < 0.0
     ):
-        if Aircraft.HorizontalTail.TAPER_RATIO:
+        if Aircraft.Wing.TAPER_RATIO in input_values:
             TR = input_values.get_val(Aircraft.Wing.TAPER_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.TAPER_RATIO, [TR])
 
@@ -1243,7 +1243,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.SWEEP not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
     ):
-        if Aircraft.WING.SWEEP in input_values:
+        if Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1254,7 +1254,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         if Aircraft.HorizontalTail.SWEEP in input_values:
             SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
-        elif Aircraft.WING.SWEEP in input_values:
+        elif Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1262,8 +1262,8 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
     ):
-        if Aircraft.WING.ASPECT_RATIO in input_values:
-            AR = input_values.get_val(Aircraft.WING.ASPECT_RATIO)
+        if Aircraft.Wing.ASPECT_RATIO in input_values:
+            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')
 
     if (
-- 
2.43.0


From b5f674d055c262ab42e8c8f8933b400bee55284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 084/101] fix: combine the outputs of more than two engine
 types

The component that joins the outputs of the engines before the mission
was made for two of them, so that a third type was refused.
---
 aviary/subsystems/propulsion/propulsion_premission.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..14c2992 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -64,7 +64,11 @@ class PropulsionPreMission(om.Group):
         if num_engine_type > 1:
             # Add an empty mux comp, which will be customized to handle all required outputs in
             # configure()
-            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(), promotes_outputs=['*'])
+            self.add_subsystem(
+                'pre_mission_mux',
+                subsys=om.MuxComp(vec_size=num_engine_type),
+                promotes_outputs=['*'],
+            )
 
         self.add_subsystem(
             'propulsion_sum',
-- 
2.43.0


From 568460e758549c61e16e40c3a7970c2a4694ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 085/101] fix: nacelle lengths of engine types with no engine

Types without engines shifted the fineness ratios of the others or made
the derivatives fail; without a diameter the fineness ratio is constant.
---
 .../flops_based/characteristic_lengths.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..403cc4e 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -377,7 +377,7 @@ class NacelleCharacteristicLength(om.ExplicitComponent):
         char_len[num_idx] = adjusted_avg_length[num_idx]
         fineness[num_idx] = 1.0
 
-        calc_idx = np.intersect1d(np.where(adjusted_avg_diam[num_idx] > 0), num_idx)
+        calc_idx = np.where((num_eng >= 1) & (adjusted_avg_diam > 0))
 
         fineness[calc_idx] = adjusted_avg_length[calc_idx] / adjusted_avg_diam[calc_idx]
 
@@ -401,14 +401,15 @@ class NacelleCharacteristicLength(om.ExplicitComponent):
         deriv_fine_len = np.zeros(len(num_eng), dtype=avg_diam.dtype)
         deriv_fine_diam = np.zeros(len(num_eng), dtype=avg_diam.dtype)
 
-        calc_idx = np.where(num_eng >= 1)
-        deriv_char_len[calc_idx] = 1.0 * np.sqrt(thrust_ratio)
-        deriv_char_thrust[calc_idx] = 0.5 * avg_length / np.sqrt(thrust_ratio) / ref_sls_thrust
-        deriv_char_sls[calc_idx] = (
-            -0.5 * avg_length / np.sqrt(thrust_ratio) * thrust / ref_sls_thrust**2
-        )
+        root = np.sqrt(thrust_ratio)
+        num_idx = np.where(num_eng >= 1)
+        deriv_char_len[num_idx] = root[num_idx]
+        deriv_char_thrust[num_idx] = (0.5 * avg_length / root / ref_sls_thrust)[num_idx]
+        deriv_char_sls[num_idx] = (-0.5 * avg_length / root * thrust / ref_sls_thrust**2)[num_idx]
 
-        deriv_fine_len[calc_idx] = 1.0 / adjusted_avg_diam[calc_idx] * np.sqrt(thrust_ratio)
+        # without a diameter the fineness ratio is constant
+        calc_idx = np.where((num_eng >= 1) & (adjusted_avg_diam > 0))
+        deriv_fine_len[calc_idx] = 1.0 / avg_diam[calc_idx]
         deriv_fine_diam[calc_idx] = -avg_length[calc_idx] / avg_diam[calc_idx] ** 2.0
 
         J[Aircraft.Nacelle.CHARACTERISTIC_LENGTH, Aircraft.Nacelle.AVG_LENGTH] = deriv_char_len
-- 
2.43.0


From e88993107b443a2bf522c007a28f6c33f94463bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 086/101] fix: slope of the fuselage mass with the acoustic
 treatment

The treatment is scaled like the rest of the fuselage.
---
 aviary/subsystems/mass/gasp_based/fuel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 785dc1f..8d11bda 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1131,7 +1131,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
-- 
2.43.0


From 7dc7eef67aef27fb3ebe4c9887109c48b462c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 087/101] fix: Breguet cruise time sums the time across each
 pair of nodes

---
 .../mission/two_dof/ode/breguet_cruise_eom.py | 85 +++++++++----------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/aviary/mission/two_dof/ode/breguet_cruise_eom.py b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
index 5c390ab..388bbdc 100644
--- a/aviary/mission/two_dof/ode/breguet_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
@@ -144,7 +144,7 @@ class RangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -217,32 +217,32 @@ class RangeComp(om.ExplicitComponent):
             self._tril_rs, self._tril_cs
         ]
 
-        # Partials of cruise_time
+        # Partials of cruise_time: the time across each two-node pair is drange_cruise / vx_m
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
-
-        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', 'mass'][1:] = J['cruise_range', 'mass'][1:] / vx_m[self._tril_rs[1:] - 1]
-
-        drange_cruise = bregA * star
+        # WRT Fuel Flow
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dFF1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dFF2 / vx_m)
 
-        f = np.cumsum(drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        # WRT Mass: dTime_dm = dTime_dW * dW_dm
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dW1 * GRAV_ENGLISH_LBM / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dW2 * GRAV_ENGLISH_LBM / vx_m)
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        J['cruise_time', 'mass'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        # WRT TAS_cruise
+        dvx_m_term = 0.5 * bregA * star / vx_m**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m - dvx_m_term)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m - dvx_m_term)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
 
 class ElectricRangeComp(om.ExplicitComponent):
@@ -382,7 +382,7 @@ class ElectricRangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(e_drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -444,30 +444,29 @@ class ElectricRangeComp(om.ExplicitComponent):
             self._tril_rs, self._tril_cs
         ]
 
-        # Partials of cruise_time
+        # Partials of cruise_time: the time across each two-node pair is e_drange_cruise / vx_m
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
-
-        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:] = (
-            J['cruise_range', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
+        # WRT electric power
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dP1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dP2 / vx_m)
 
-        f = np.cumsum(e_drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        # WRT CUMULATIVE_ELECTRIC_ENERGY_USED
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dE1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dE2 / vx_m)
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        # WRT TAS_cruise
+        dvx_m_term = 0.5 * e_drange_cruise / vx_m**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m - dvx_m_term)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m - dvx_m_term)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
-- 
2.43.0


From 79fbaad9960d7c375170c8621ebed0952ef2cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 088/101] fix: horizontal force in the flare accelerates as in
 every other climbing phase

---
 aviary/mission/energy_state/ode/landing_eom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/energy_state/ode/landing_eom.py b/aviary/mission/energy_state/ode/landing_eom.py
index 97a037c..db35514 100644
--- a/aviary/mission/energy_state/ode/landing_eom.py
+++ b/aviary/mission/energy_state/ode/landing_eom.py
@@ -7,6 +7,7 @@ from aviary.mission.energy_state.ode.takeoff_eom import (
     Accelerations,
     DistanceRates,
     FlightPathAngleRate,
+    SumForces,
     VelocityRate,
 )
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option
@@ -45,7 +46,7 @@ class FlareEOM(om.Group):
 
         self.add_subsystem(
             'sum_forces',
-            FlareSumForces(num_nodes=nn),
+            SumForces(num_nodes=nn, climbing=True),
             promotes_inputs=inputs,
             promotes_outputs=outputs,
         )
-- 
2.43.0


From 1fdc4748c7ecaa66502470e41fb8743e411c8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 089/101] fix: the target range of an off-design mission stays
 out of the phase_info given

---
 aviary/core/aviary_problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..d203a65 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1535,6 +1535,9 @@ class AviaryProblem(om.Problem):
                     )
                 mission_range = self.get_val(Mission.RANGE, units='NM')[0]
 
+            # make new dictionaries to avoid modifying the ones provided by the user
+            phase_info = dict(phase_info)
+            phase_info['post_mission'] = dict(phase_info.get('post_mission', {}))
             phase_info['post_mission']['target_range'] = (
                 mission_range,
                 'nmi',
-- 
2.43.0


From 57270d122a5867dc2ba2c43b46d9a9d0768ccd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 090/101] fix: extended cruise bounds of the payload-range
 missions stay out of the sized mission

---
 aviary/core/aviary_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index d203a65..880ecf6 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1712,6 +1712,8 @@ class AviaryProblem(om.Problem):
                 max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
                 cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
 
+                phase_info['cruise'] = dict(phase_info['cruise'])
+                phase_info['cruise']['user_options'] = dict(phase_info['cruise']['user_options'])
                 phase_info['cruise']['user_options'].update(
                     {'time_duration_bounds': ((min_duration, 2 * max_duration), cruise_units)}
                 )
-- 
2.43.0


From 27ead16ebe27fe8992ae0779d7f3b13cbf43dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 091/101] fix: slope of the landing mass ratio stays finite at
 low cruise Mach numbers

---
 aviary/subsystems/mass/flops_based/landing_mass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/landing_mass.py b/aviary/subsystems/mass/flops_based/landing_mass.py
index 49489e0..a742ed1 100644
--- a/aviary/subsystems/mass/flops_based/landing_mass.py
+++ b/aviary/subsystems/mass/flops_based/landing_mass.py
@@ -34,7 +34,8 @@ class LandingTakeoffMassRatio(om.ExplicitComponent):
 
         den = 1.0 + np.exp(-1000 * (cruise_mach - 1))
         cruise_factor = 5e-5 / den + 4e-5
-        dfact_dmach = 5e-2 / den**2 * np.exp(-1000 * (cruise_mach - 1))
+        # written in terms of 1 / den, so that it stays finite where the exponential overflows
+        dfact_dmach = 5e-2 / den * (1.0 - 1.0 / den)
 
         J[Aircraft.Design.LANDING_TO_TAKEOFF_MASS_RATIO, Aircraft.Design.RANGE] = -cruise_factor
         J[Aircraft.Design.LANDING_TO_TAKEOFF_MASS_RATIO, Aircraft.Design.CRUISE_MACH] = (
-- 
2.43.0


From 3180d280a7b8b58ea2df5170934ada26fd307049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 092/101] fix: engine types with unlike pre-mission results can
 be combined

---
 .../propulsion/propulsion_premission.py       | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 14c2992..de8f34d 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -2,6 +2,7 @@ import sys
 
 import numpy as np
 import openmdao.api as om
+from openmdao.utils.units import convert_units
 
 from aviary.utils.aviary_values import AviaryValues
 from aviary.variable_info.enums import Verbosity
@@ -83,6 +84,7 @@ class PropulsionPreMission(om.Group):
         # vectorized inputs/outputs are a problem. Slice all needed vector inputs and pass
         # pre_mission components only the value they need, then mux all the outputs back together.
 
+        aviary_options = self.options['aviary_options']
         engine_models = self.options['engine_models']
         num_engine_type = len(engine_models)
 
@@ -109,6 +111,11 @@ class PropulsionPreMission(om.Group):
 
         for idx, engine_model in enumerate(engine_models):
             engine = self._get_subsystem(engine_model.name)
+            if engine is None:
+                # pre-mission systems are optional for engine models
+                output_dict[engine_model.name] = {}
+                continue
+
             # Patterns to identify which inputs/outputs are vectorized and need to be
             # split then re-muxed
             pattern = ['engine:', 'nacelle:']
@@ -183,12 +190,19 @@ class PropulsionPreMission(om.Group):
                         )
                     else:
                         # If this component does not provide the output, pass the existing value for
-                        # that index to the mux
-                        self.connect(
-                            output,
-                            'pre_mission_mux.' + output + '_' + str(i),
-                            src_indices=om.slicer[i],
-                        )
+                        # that index to the mux: the given one, else the default
+                        mux_input = 'pre_mission_mux.' + output + '_' + str(i)
+                        units = unique_outputs[output]
+                        meta_data = engine_models[i].meta_data
+                        if output in aviary_options:
+                            val = np.ravel(aviary_options.get_val(output, units))
+                            val = val[i] if len(val) > 1 else val[0]
+                        elif output in meta_data and meta_data[output]['default_value'] is not None:
+                            val = np.ravel(meta_data[output]['default_value'])[0]
+                            val = convert_units(val, meta_data[output]['units'], units)
+                        else:
+                            continue
+                        self.set_input_defaults(mux_input, val=val, units=units)
 
 
 class PropulsionSum(om.ExplicitComponent):
-- 
2.43.0


From 80785ebd629b01313081632364028bff5ae3ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 093/101] fix: fuel burned in a single reserve phase counts
 from its initial mass

---
 aviary/core/aviary_group.py                | 27 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 23 +++++++++---------
 aviary/subsystems/subsystem_builder.py     |  2 +-
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 181010a..e71892e 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1270,17 +1270,22 @@ class AviaryGroup(om.Group):
             for phase_name, var_mapping in subsystem.get_post_mission_bus_variables(
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
-                for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                for mission_variable_name, all_variable_data in var_mapping.items():
+                    # A variable may be connected more than once, with different src_indices.
+                    if not isinstance(all_variable_data, list):
+                        all_variable_data = [all_variable_data]
+
+                    for variable_data in all_variable_data:
+                        post_mission_variable_names = variable_data['post_mission_name']
+                        src_indices = variable_data.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                            mvn_basename = mission_variable_name.rpartition('.')[-1]
+                            src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..267f48b 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,17 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
-            post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
-                    'src_indices': [0],
-                }
-            }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
-                    'src_indices': [-1],
-                }
-            }
+            # The first and last reserve phase may be the same phase.
+            for phase_name, mass_name, src_index in (
+                (reserve_phases[0], 'mass_initial', 0),
+                (reserve_phases[-1], 'mass_final', -1),
+            ):
+                post_mission_bus.setdefault(phase_name, {}).setdefault('mass', []).append(
+                    {
+                        'post_mission_name': f'{self.name}.reserve_fuel_burned.{mass_name}',
+                        'src_indices': [src_index],
+                    }
+                )
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..51dff92 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -518,7 +518,7 @@ class SubsystemBuilder(ABC):
         -------
         bus_variables : dict
             A dictionary where the keys are the phase name and the values are dictionaries with the keys being the mission variable names to connect from,
-            and values are dictionaries with the following keys:
+            and values are dictionaries (or lists of dictionaries) with the following keys:
             - 'post_mission_name': str or list
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
-- 
2.43.0


From 74cba74ae1385fcc71388694de07f1d5ac60777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 094/101] fix: specified initial states are flown, not the
 guesses

---
 .../energy_state_problem_configurator.py      |  5 ++-
 .../mission/two_dof_problem_configurator.py   |  9 ++++-
 aviary/mission/utils.py                       | 36 +++++++++++++++++++
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 5dd67c7..742bfd2 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -10,7 +10,7 @@ from aviary.mission.energy_state.phases.build_takeoff import Takeoff
 from aviary.mission.energy_state.phases.energy_phase import EnergyPhase
 from aviary.mission.phase_builder import PhaseBuilder
 from aviary.mission.problem_configurator import ProblemConfiguratorBase
-from aviary.mission.utils import process_guess_var
+from aviary.mission.utils import apply_fixed_initial_states, process_guess_var
 from aviary.utils.utils import wrapped_convert_units
 from aviary.variable_info.enums import LegacyCode, Verbosity
 from aviary.variable_info.variables import Aircraft, Dynamic, Mission
@@ -482,6 +482,9 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
         # Let's preserve the original user-specified initial conditions.
         guess_dict = deepcopy(guesses)
 
+        # A specified initial state is fixed, so it must be set along with the guesses.
+        apply_fixed_initial_states(guess_dict, options, state_keys)
+
         if 'mass' not in guess_dict:
             mass_guess = aviary_group.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, units='lbm')
 
diff --git a/aviary/mission/two_dof_problem_configurator.py b/aviary/mission/two_dof_problem_configurator.py
index 4867706..aa85e27 100644
--- a/aviary/mission/two_dof_problem_configurator.py
+++ b/aviary/mission/two_dof_problem_configurator.py
@@ -12,7 +12,7 @@ from aviary.mission.two_dof.phases.simple_cruise_phase import SimpleCruisePhase
 from aviary.mission.two_dof.phases.takeoff_phase import TakeoffPhase
 from aviary.mission.two_dof.polynomial_fit import PolynomialFit
 from aviary.mission.problem_configurator import ProblemConfiguratorBase
-from aviary.mission.utils import process_guess_var
+from aviary.mission.utils import apply_fixed_initial_states, process_guess_var
 from aviary.utils.process_input_decks import update_GASP_options
 from aviary.utils.utils import wrapped_convert_units
 from aviary.variable_info.enums import LegacyCode, PhaseType
@@ -501,6 +501,13 @@ class TwoDOFProblemConfigurator(ProblemConfiguratorBase):
 
         prob_keys = ['tau_gear', 'tau_flaps']
 
+        # A specified initial state is fixed, so it must be set along with the guesses.
+        apply_fixed_initial_states(
+            guesses,
+            aviary_group.mission_info[phase_name]['user_options'],
+            [key for key in state_keys if key in phase.state_options],
+        )
+
         for guess_key, guess_data in guesses.items():
             val, units = guess_data
 
diff --git a/aviary/mission/utils.py b/aviary/mission/utils.py
index be66c25..7a2b9cb 100644
--- a/aviary/mission/utils.py
+++ b/aviary/mission/utils.py
@@ -1,6 +1,8 @@
 import openmdao.api as om
 import numpy as np
 
+from aviary.utils.utils import wrapped_convert_units
+
 
 def separate_reserve_phases(mission_info: dict):
     """
@@ -68,6 +70,40 @@ def get_phase_mission_bus_lengths(traj):
     return phase_mission_bus_lengths
 
 
+def apply_fixed_initial_states(guesses, user_options, state_keys):
+    """
+    Make the guesses for states start at the initial values specified in the user_options.
+
+    The initial value of a state is held fixed when it is specified, so the value that is set as
+    a guess at the start of the phase is the one that is flown.
+
+    Parameters
+    ----------
+    guesses : dict
+        Initial guesses, tuples of (value, units), keyed by name. Updated in place.
+    user_options : dict
+        Subdictionary "user_options" from the phase_info.
+    state_keys : list of str
+        Names of the states.
+    """
+    for key in state_keys:
+        initial, units = user_options.get(f'{key}_initial', None) or (None, None)
+        if initial is None:
+            continue
+
+        if key in guesses:
+            val, guess_units = guesses[key]
+            initial = wrapped_convert_units((initial, units), guess_units)
+            if np.size(val) > 1:
+                val = np.array(val, dtype=float)
+                val.flat[0] = initial
+            else:
+                val = np.array([initial, np.ravel(val)[0]])
+            guesses[key] = (val, guess_units)
+        else:
+            guesses[key] = (initial, units)
+
+
 def process_guess_var(val, key, phase):
     """
     Process the guess variable, which can either be a float or an array of floats.
-- 
2.43.0


From 90c9c59a28cbfdc2afc097761f7bf1a3a33557df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 095/101] fix: bounds on the initial time hold for phases not
 linked directly

---
 aviary/mission/energy_state_problem_configurator.py | 9 +++++++--
 aviary/mission/two_dof_problem_configurator.py      | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 742bfd2..65b1dca 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -182,8 +182,13 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
         fix_initial = initial is not None
         fix_duration = duration is not None
 
-        # All follow-on phases.
-        input_initial = phase_idx > 0
+        # All follow-on phases that take their initial time from upstream. The first reserve phase
+        # is not linked, and other phases may be linked by a constraint.
+        input_initial = (
+            phase_idx > 0
+            and phase_name not in aviary_group.reserve_phases[:1]
+            and user_options['time_initial_direct_link']
+        )
 
         # Figure out resonable refs if they aren't given.
         if initial_ref == 1.0:
diff --git a/aviary/mission/two_dof_problem_configurator.py b/aviary/mission/two_dof_problem_configurator.py
index aa85e27..47c593d 100644
--- a/aviary/mission/two_dof_problem_configurator.py
+++ b/aviary/mission/two_dof_problem_configurator.py
@@ -257,7 +257,13 @@ class TwoDOFProblemConfigurator(ProblemConfiguratorBase):
             # Why are we overriding this?
             duration_ref = 0.5 * (duration_bounds[0] + duration_bounds[1])
 
-        input_initial = phase_idx > 0
+        # All follow-on phases that take their initial time from upstream. The first reserve phase
+        # is not linked, and other phases may be linked by a constraint.
+        input_initial = (
+            phase_idx > 0
+            and phase_name not in aviary_group.reserve_phases[:1]
+            and user_options['time_initial_direct_link']
+        )
         extra_args = {}
 
         if fix_initial or input_initial:
-- 
2.43.0


From 6022049823d8de95505975d0f966fd80c94b05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 096/101] fix: hybrid objective rewards final mass of the main
 mission

---
 aviary/core/aviary_problem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 880ecf6..4df7be1 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -750,7 +750,7 @@ class AviaryProblem(om.Problem):
                 )
 
             elif objective_type == 'hybrid_objective':
-                self._add_hybrid_objective(self.model.mission_info)
+                self._add_hybrid_objective(final_phase_name)
                 self.model.add_objective('obj_comp.obj')
 
             elif objective_type == 'fuel_burned':
@@ -1951,26 +1951,24 @@ class AviaryProblem(om.Problem):
 
             jsonfile.close()
 
-    def _add_hybrid_objective(self, phase_info):
+    def _add_hybrid_objective(self, final_phase_name):
         """
-        Add a hybrid objective that combines final mass and final time.
+        Add a hybrid objective that combines final mass (maximized) and final time (minimized).
 
         Parameters
         ----------
-        phase_info : dict
-            Dictionary of mission phase information, keyed by phase name.
+        final_phase_name : str
+            Name of the last phase of the main mission.
         """
-        phases = list(phase_info.keys())
         takeoff_mass = self.model.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, units='lbm')
 
         obj_comp = om.ExecComp(
-            f'obj = final_mass / {takeoff_mass} + final_time / 5.',
+            f'obj = -final_mass / {takeoff_mass} + final_time / 5.',
             final_mass={'units': 'lbm'},
             final_time={'units': 'h'},
         )
         self.model.add_subsystem('obj_comp', obj_comp)
 
-        final_phase_name = phases[-1]
         self.model.connect(
             f'traj.{final_phase_name}.timeseries.mass',
             'obj_comp.final_mass',
-- 
2.43.0


From 6d0cc02b338f81e48b4fa9f2ca063568673960fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 097/101] fix: end constraints use their scale, and zero is not
 one

---
 aviary/mission/phase_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..9a7401c 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -438,14 +438,14 @@ class PhaseBuilder(ABC):
         if final is not None:
             constraint_ref, _ = options[f'{name}_constraint_ref']
             if constraint_ref is None:
-                # If unspecified, final is a good value for it.
-                constraint_ref = final
+                # If unspecified, final is a good value for it, unless it is zero.
+                constraint_ref = final if final != 0.0 else ref
             self.phase.add_boundary_constraint(
                 target,
                 loc='final',
                 equals=final,
                 units=units,
-                ref=final,
+                ref=constraint_ref,
             )
 
     def add_control(
@@ -481,7 +481,8 @@ class PhaseBuilder(ABC):
 
         if ref == 1.0:
             # This has not been moved from default, so find a good value.
-            candidates = [x for x in (bounds[0], bounds[1], initial, final) if x is not None]
+            # Zero is not a scale.
+            candidates = [x for x in (bounds[0], bounds[1], initial, final) if x]
             if len(candidates) > 0:
                 ref = np.max(np.abs(np.array(candidates)))
 
-- 
2.43.0


From 006377235baa335ca5e556b72be22e05021d9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 098/101] fix: two degree of freedom landing glides to the
 runway, not to sea level

---
 aviary/mission/two_dof/ode/landing_ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/landing_ode.py b/aviary/mission/two_dof/ode/landing_ode.py
index 3180889..09d38c0 100644
--- a/aviary/mission/two_dof/ode/landing_ode.py
+++ b/aviary/mission/two_dof/ode/landing_ode.py
@@ -143,7 +143,8 @@ class LandingSegment(TwoDOFODE):
                 'CL_max',
                 Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR,
                 Mission.Landing.TOUCHDOWN_SINK_RATE,
-                Mission.Landing.INITIAL_ALTITUDE,
+                # the glide is flown down to the runway, not to sea level
+                (Mission.Landing.INITIAL_ALTITUDE, Mission.Landing.OBSTACLE_HEIGHT),
                 Mission.Landing.BRAKING_DELAY,
             ],
             promotes_outputs=[
@@ -248,7 +249,7 @@ class LandingSegment(TwoDOFODE):
         # landing doesn't change flap or gear position
         self.set_input_defaults('t_init_flaps_app', val=1e10)
         self.set_input_defaults('t_init_gear_app', val=1e10)
-        self.set_input_defaults(Mission.Landing.INITIAL_ALTITUDE, val=50, units='ft')
+        self.set_input_defaults(Mission.Landing.OBSTACLE_HEIGHT, val=50, units='ft')
         self.set_input_defaults('aero_ramps.flap_factor:final_val', val=1.0)
         self.set_input_defaults('aero_ramps.gear_factor:final_val', val=1.0)
         self.set_input_defaults('aero_ramps.flap_factor:initial_val', val=0.0)
-- 
2.43.0


From 8647cb2baea25f28e5bfc7317345eec2ec9df818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 099/101] fix: simplified takeoff takes place at the altitude
 of the airport

---
 .../mission/energy_state/phases/simplified_takeoff.py | 11 +++++++++--
 aviary/mission/energy_state_problem_configurator.py   |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/aviary/mission/energy_state/phases/simplified_takeoff.py b/aviary/mission/energy_state/phases/simplified_takeoff.py
index 6bbe47e..b93e6b5 100644
--- a/aviary/mission/energy_state/phases/simplified_takeoff.py
+++ b/aviary/mission/energy_state/phases/simplified_takeoff.py
@@ -101,11 +101,12 @@ class FinalTakeoffConditions(om.ExplicitComponent):
         add_aviary_input(self, Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST)
         add_aviary_input(self, Mission.Takeoff.LIFT_OVER_DRAG)
         add_aviary_input(self, Mission.Takeoff.CLIMBOUT_THRUST_FRACTION)
+        add_aviary_input(self, Mission.Takeoff.AIRPORT_ALTITUDE, units='ft')
 
         add_aviary_output(self, Mission.Takeoff.GROUND_DISTANCE)
         add_aviary_output(self, Mission.Takeoff.FINAL_VELOCITY, units='m/s')
         add_aviary_output(self, Mission.Takeoff.FINAL_MASS)
-        add_aviary_output(self, Mission.Takeoff.FINAL_ALTITUDE)
+        add_aviary_output(self, Mission.Takeoff.FINAL_ALTITUDE, units='ft')
 
     def setup_partials(self):
         self.declare_partials(
@@ -135,6 +136,11 @@ class FinalTakeoffConditions(om.ExplicitComponent):
             Mission.Takeoff.FUEL_MASS,
             val=-1.0,
         )
+        self.declare_partials(
+            Mission.Takeoff.FINAL_ALTITUDE,
+            Mission.Takeoff.AIRPORT_ALTITUDE,
+            val=1.0,
+        )
 
     def compute(self, inputs, outputs):
         rho_SL = self.options[Mission.SEA_LEVEL_DENSITY][0]
@@ -178,7 +184,7 @@ class FinalTakeoffConditions(om.ExplicitComponent):
         )
         outputs[Mission.Takeoff.FINAL_VELOCITY] = V2
         outputs[Mission.Takeoff.FINAL_MASS] = gross_mass - inputs[Mission.Takeoff.FUEL_MASS]
-        outputs[Mission.Takeoff.FINAL_ALTITUDE] = 35
+        outputs[Mission.Takeoff.FINAL_ALTITUDE] = inputs[Mission.Takeoff.AIRPORT_ALTITUDE] + 35
 
     def compute_partials(self, inputs, J):
         rho_SL = self.options[Mission.SEA_LEVEL_DENSITY][0]
@@ -332,6 +338,7 @@ class TakeoffGroup(om.Group):
                 Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST,
                 Mission.Takeoff.CLIMBOUT_THRUST_FRACTION,
                 Mission.Takeoff.LIFT_OVER_DRAG,
+                Mission.Takeoff.AIRPORT_ALTITUDE,
             ],
             promotes_outputs=[
                 Mission.Takeoff.GROUND_DISTANCE,
diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 65b1dca..77c887c 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -115,7 +115,11 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
         aviary_group.add_subsystem(
             'takeoff',
             takeoff,
-            promotes_inputs=['aircraft:*', 'mission:*'],
+            promotes_inputs=[
+                'aircraft:*',
+                'mission:*',
+                (Dynamic.Mission.ALTITUDE, Mission.Takeoff.AIRPORT_ALTITUDE),
+            ],
             promotes_outputs=['mission:*'],
         )
 
-- 
2.43.0


From a11ec150fee373ddf94ef0428c4a53bbcea776ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 100/101] fix: adding a mission to a problem that is not of
 several missions is refused

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 4df7be1..e4825c0 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -293,7 +293,7 @@ class AviaryProblem(om.Problem):
         verbosity = self._override_verbosity(verbosity)
 
         if self.problem_type is not ProblemType.MULTI_MISSION:
-            ValueError(
+            raise ValueError(
                 'add_aviary_group() should only be called when ProblemType is MULTI_MISSION.'
             )
 
-- 
2.43.0


From 6d18c0be6df1493e158433fc418ca5c7f6267d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 101/101] fix: composite objective with weights of missions and
 outputs can be set up

---
 aviary/core/aviary_problem.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index e4825c0..c498085 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1069,26 +1069,32 @@ class AviaryProblem(om.Problem):
         # outputs = ['fuelburn','gross_mass']
         weighted_exprs = []
         connection_names = []
+        obj_inputs = []
         output_weights = [float(weight / sum(output_weights)) for weight in output_weights]
         mission_weights = [float(weight / sum(mission_weights)) for weight in mission_weights]
         for mission, mission_weight in zip(missions, mission_weights):
             for output, output_weight in zip(outputs, output_weights):
-                connection_names.append(
-                    [f'composite_function.{mission}_{output}', f'{mission}.{output}']
-                )
-                weighted_exprs.append(f'{mission}_{output}*{output_weight}*{mission_weight}')
+                # ExecComp variable names cannot contain ":"
+                obj_input = f'{mission}_{output}'.replace(':', '_')
+                obj_inputs.append(obj_input)
+                connection_names.append([f'{mission}.{output}', f'composite_function.{obj_input}'])
+                weighted_exprs.append(f'{obj_input}*{output_weight}*{mission_weight}')
         final_expr = ' + '.join(weighted_exprs)
         # weighted_str looks like:  'model1.fuelburn*0.67*0.5 + model1.gross_mass*0.33*0.5 + model2.fuelburn*0.67*0.5 + model2.gross_mass*0.33*0.5'
 
         # adding composite execComp to super problem
         self.model.add_subsystem(
             'composite_function',
-            om.ExecComp('composite_objective = ' + final_expr, has_diag_partials=True),
+            om.ExecComp(
+                'composite_objective = ' + final_expr,
+                has_diag_partials=True,
+                **{name: {'units_by_conn': True} for name in obj_inputs},
+            ),
             promotes_outputs=['composite_objective'],
         )
         # connect from inside of the models to the composite objective
-        for target, source in connection_names:
-            self.model.connect(target, source)
+        for source, target in connection_names:
+            self.model.connect(source, target)
         # finally add the objective
         self.model.add_objective('composite_objective', ref=ref)
 
-- 
2.43.0

