From cfdbe3af839bc2a9393011799324fc9d2b6f346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 01/95] fix: never sample an index of probability zero when a
 CDF ends below 1 by round-off

---
 demod/utils/monte_carlo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/utils/monte_carlo.py b/demod/utils/monte_carlo.py
index afd3e6b..1e78fe1 100644
--- a/demod/utils/monte_carlo.py
+++ b/demod/utils/monte_carlo.py
@@ -38,8 +38,8 @@ def monte_carlo_from_1d_cdf(cdf: CDF, n_samples: int = 1) -> MC_choices:
     """
     # sample MC distibution
     rand = np.random.uniform(size=n_samples)
-    # gets the approptiate cdfs values
-    mask = cdf > rand[:, None]
+    # gets the approptiate cdfs values (round-off can end a cdf below 1)
+    mask = cdf > rand[:, None] * cdf[-1]
     return np.argmax(mask, axis=1)
 
 
@@ -75,8 +75,8 @@ def monte_carlo_from_cdf(cdf_s: CDFs) -> MC_choices:
     """
     # sample MC distibution
     rand = np.random.uniform(size=cdf_s.shape[0])
-    # gets the approptiate CDFs values
-    mask = cdf_s > rand[:, None]
+    # gets the approptiate CDFs values (round-off can end a CDF below 1)
+    mask = cdf_s > rand[:, None] * cdf_s[:, -1:]
     return np.argmax(mask, axis=1)
 
 
-- 
2.43.0


From 3b28770f120f19d79bdafd5c24d6df19be85ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 02/95] fix: sparse TPM sampling, iteration, shape and
 validation follow the dense matrices they represent

---
 demod/utils/sparse.py | 70 +++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..6e9be68 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -6,6 +6,7 @@ Very useful when the TPMs are large and have a lot of 0 values in them.
 from __future__ import annotations
 
 from typing import Tuple
+import os
 import warnings
 import numpy as np
 
@@ -72,8 +73,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
@@ -81,8 +82,8 @@ class SparseTPM():
         self.values = np.array(values)
 
         if length == 0:  # an empty matrix
-            n_states = 0
-            n_times = 0
+            n_states = 0 if n_states is None else n_states
+            n_times = 0 if n_times is None else n_times
 
         if n_states is None:
             # assign n_states to the maximum of the two states
@@ -94,7 +95,7 @@ class SparseTPM():
             n_times = max(times) + 1
         self.n_times = int(n_times)
 
-        self.shape = (n_times, n_states, n_states)
+        self.shape = (self.n_times, self.n_states, self.n_states)
 
         self.dead_state_value = dead_state_value
 
@@ -152,7 +153,8 @@ class SparseTPM():
     def __iter__(self):
         """Iterate over the transition matrices."""
         self._iter_count = 0
-        return self
+        # each iteration has its own position
+        return (self[time] for time in range(self.n_times))
 
     def __next__(self):
         """Get the next transition matrix."""
@@ -177,34 +179,40 @@ class SparseTPM():
         time = self._check_int_time_value(time)
         # print('times, states', time, states)
 
-        # gets the pdf that we want
-        pdf_indices, inv = np.unique(states, return_inverse=True)
-        # get mask of the pdfs we required
-        # print('pdf_ind, inv', pdf_indices, inv)
-        # print('states from available ', self.inds_from[self.times == time])
-        mask = (self.times == time) & (np.isin(self.inds_from, pdf_indices))
+        # the transitions that can happen, grouped by initial state
+        mask = (self.times == time) & (self.values > 0)
+        order = np.argsort(self.inds_from[mask], kind='stable')
+        inds_from = self.inds_from[mask][order]
+        inds_to = self.inds_to[mask][order]
+        values = self.values[mask][order]
+
+        # does not modify the states of the caller
+        new_states = np.array(states)
+        available = np.isin(new_states, inds_from)
         # assume states has no dead states
-        if np.any(~np.isin(states, self.inds_from[mask])):
+        if not np.all(available):
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
-                # change the dead states and resample a montecarlo draw
-                states[
-                    ~np.isin(states, self.inds_from[mask])
-                ] = self.dead_state_value
-                return self.sparse_monte_carlo(time, states)
+                # change the dead states
+                new_states[~available] = self.dead_state_value
+                available = np.isin(new_states, inds_from)
 
         # compute a flattened cdf containing all the states cdf
-        flattened_cdf = np.cumsum(self.values[mask])
-        # print('cdf',flattened_cdf)
+        flattened_cdf = np.cumsum(values)
+        # where the pdf of each state starts and ends
+        first = np.searchsorted(inds_from, new_states[available], 'left')
+        last = np.searchsorted(inds_from, new_states[available], 'right') - 1
+        lower = flattened_cdf[first] - values[first]
+        upper = flattened_cdf[last]
 
         # monte carlo part
         # sample the random values, and add their location in the flattened cdf
-        rand = np.random.uniform(size=states.shape) + inv
-        # print('r', rand)
+        rand = np.random.uniform(size=first.shape)
         # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
-        # print('new states', new_states)
-        return np.array(new_states)
+        inds = np.searchsorted(
+            flattened_cdf, lower + rand * (upper - lower), 'right')
+        new_states[available] = inds_to[np.clip(inds, first, last)]
+        return new_states
 
     def save(self, path: str) -> None:
         """Save the TPM at the specified path.
@@ -218,6 +226,9 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        # the shape cannot be recovered from the transitions
+        dead = -1 if self.dead_state_value is None else self.dead_state_value
+        np.save(path+'_tpm_shape', [self.n_states, self.n_times, dead])
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -235,4 +246,11 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        if not os.path.isfile(path+'_tpm_shape.npy'):
+            # was saved without its shape
+            return SparseTPM(times, inds_from, inds_to, values)
+        n_states, n_times, dead = np.load(path+'_tpm_shape.npy').tolist()
+        return SparseTPM(
+            times, inds_from, inds_to, values, n_states, n_times,
+            dead_state_value=None if dead < 0 else dead
+        )
-- 
2.43.0


From 565ec39e9fb56dfdb4468cdd98c2ca42da4a7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 03/95] fix: before_next_day callbacks also fire at the end of
 a month

---
 demod/simulators/base_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..b242b4d 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.day != self.current_time.day:
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -986,7 +986,7 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        if (self.current_time + self.step_size).day != self.current_time.day:
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
-- 
2.43.0


From b85a3bfb4b04020d8b3eb2f661c59fcc746943c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 04/95] fix: 4 am callbacks also fire when a step ends after 5
 am

---
 demod/simulators/base_simulators.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index b242b4d..4afd56c 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -865,6 +865,11 @@ class TimeAwareSimulator(Simulator):
 # Type for the step method of the simulators (variable input, None output)
 
 
+def _day_from_4am(time: datetime.datetime) -> datetime.date:
+    """Return the date of a day that starts at 4 am."""
+    return (time - datetime.timedelta(hours=4)).date()
+
+
 class Callbacks():
     """Defines different Callbacks for TimeAwareSimulator children.
 
@@ -959,8 +964,8 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            next_hour = (self.current_time + self.step_size).hour
-            if next_hour == 4 and self.current_time.hour != 4:
+            next_datetime = self.current_time + self.step_size
+            if _day_from_4am(next_datetime) != _day_from_4am(self.current_time):
                 self.on_before_next_day_4am()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -975,9 +980,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self:TimeAwareSimulator, *args, **kwargs)-> None:
-            previous_hour = self.current_time.hour
+            previous_day = _day_from_4am(self.current_time)
             out = step_method(self, *args, **kwargs)
-            if self.current_time.hour == 4 and previous_hour != 4:
+            if _day_from_4am(self.current_time) != previous_day:
                 self.on_after_next_day_4am()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -1000,16 +1005,16 @@ def after_next_day_callback(step_method):
     return decorated_step
 def before_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        next_hour = (self.current_time + self.step_size).hour
-        if  next_hour == 4 and self.current_time.hour != 4:
+        next_datetime = self.current_time + self.step_size
+        if _day_from_4am(next_datetime) != _day_from_4am(self.current_time):
             self.on_before_next_day_4am()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_hour = self.current_time.hour
+        previous_day = _day_from_4am(self.current_time)
         out = step_method(self, *args, **kwargs)
-        if self.current_time.hour == 4 and previous_hour != 4:
+        if _day_from_4am(self.current_time) != previous_day:
             self.on_after_next_day_4am()
         return out
     return decorated_step
-- 
2.43.0


From ed9fd6ee6161a0b6e3a98263403a1c8f38d73987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:31 +0000
Subject: [PATCH 05/95] fix: Markov and sparse activity simulators update their
 states before the logger and the cache are refreshed

---
 demod/simulators/activity_simulators.py | 20 ++++++++++++--------
 demod/simulators/sparse_simulators.py   |  7 +++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..ed807b5 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,13 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
+        self._sample_starting_states(starting_state_pdf, checkcdf)
+        # the states must be known before the initialization steps
         super().initialize_starting_state(start_time_step=start_time_step)
+
+    def _sample_starting_states(
+            self, starting_state_pdf: np.ndarray, checkcdf: bool) -> None:
+        """Sample the starting states and set the TPMs."""
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -389,17 +395,16 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             AssertionError
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(
-            starting_state_pdf,
-            start_time_step=start_time_step,
-            checkcdf=checkcdf,
-        )
+        self._sample_starting_states(starting_state_pdf, checkcdf)
         # Adds the time based
         self.times_left = monte_carlo_from_pdf(
             # Get the pdf of times left corresponding to each current states
             starting_durations_pdfs[self.current_states, :]
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
+        # Bypass the first order initialization
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step)
 
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
@@ -443,9 +448,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -473,6 +475,8 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             )
         # update the time
         self.times_left -= 1
+        # Bypass the first order change of states
+        Simulator.step(self)
 
 
 class SubgroupsIndividualsActivitySimulator(
diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..cfdb826 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -295,15 +295,14 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
 
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
+        # update the time step
+        super().step()
 
 
 class SparseActivitySimulator(SparseStatesSimulator):
-- 
2.43.0


From 496b8c669daf11cb27f7c69579a4694c50a8ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 06/95] fix: lighting simulators update the bulbs before the
 logger and the cache are refreshed

---
 demod/simulators/crest_simulators.py    | 4 ++--
 demod/simulators/lighting_simulators.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..0ada0dc 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -900,8 +900,6 @@ class CRESTLightingSimulator(Simulator):
         return self.get_electric_consumptions()
 
     def step(self, active_occupancy, irradiance):
-        super().step()
-
         assert (
             len(active_occupancy) == self.n_households
         ), "The active occupancy must be given for each households"
@@ -942,6 +940,8 @@ class CRESTLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
 
 class HeatingControlsSimulator(Simulator):
diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..d980cfa 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From 27ed6a8d2f431fc67cfcfb6fe98d0448f719133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 07/95] fix: a change of day type does not delay the transition
 schedule by one step

---
 demod/simulators/activity_simulators.py |  4 ++--
 demod/simulators/crest_simulators.py    | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index ed807b5..ff216f0 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -860,13 +860,13 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the tpms."""
         # Check if we want to update the tpms
         if self.time_aware:
diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0ada0dc..ecab529 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,13 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
         Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+            The change of TPM is performed right before the first
+            transition of the day, as setting the TPMs skips the first
+            one, which is the last transition of the day.
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +335,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From 39e2ba8d8ea245f59c094c9eac3d8d75069decdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:16 +0000
Subject: [PATCH 08/95] fix: the copy of a logger has the length of its
 (absent) data

---
 demod/simulators/base_simulators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 4afd56c..f93b7d7 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -209,9 +209,7 @@ class SimLogger():
         Returns:
             An empty logger with the same attributes.
         """
-        new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
-        return new_logger
+        return SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
         """Visit a simulator object
-- 
2.43.0


From 9499c1756ad00b201a4b635fe92074eb048e51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 09/95] fix: subgroups with no household can be given to the
 individuals activity simulator

---
 demod/simulators/activity_simulators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index ff216f0..5fa59bd 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -663,6 +663,11 @@ class SubgroupsIndividualsActivitySimulator(
         Return the person subgroups, and the number of each subgroup
         that has to be simulated.
         """
+        # Subgroups without households have no person to simulate
+        used = [n > 0 for n in n_households_list]
+        subgroups_list = [sg for sg, u in zip(subgroups_list, used) if u]
+        n_households_list = [n for n in n_households_list if n > 0]
+
         subgroup_persons = subgroup_households_to_persons(
             subgroups_list,
         )
-- 
2.43.0


From 9624992542166cc3c8b97a1373a40d1d9f48f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 10/95] fix: the number of states follows the labels of the new
 matrices

---
 demod/simulators/activity_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 5fa59bd..61e29f6 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -269,6 +269,7 @@ class MarkovChain1rstOrder(Simulator):
             inverse
         ].reshape(-1)
         self.state_labels = new_labels
+        self.n_states = len(new_labels)
 
     def step(self) -> None:
         """Perfom a step Markov chain step.
-- 
2.43.0


From 745ec8fe5b0d4ed66545e87bcfacb30f2bbb1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 11/95] fix: getters called before the initialisation ends do
 not stay cached after it

---
 demod/simulators/base_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index f93b7d7..cb303ae 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -508,6 +508,8 @@ class Simulator():
         for _ in range(start_time_step):
             self.step(*args, **kwargs)
 
+        # values cached before the starting state was set are outdated
+        self._cache.clear()
         # clears the logger after initialization
         if self.logger:
             self.logger.clear()
-- 
2.43.0


From dc001807cd6f8c038695436af6f88550314a0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:08 +0000
Subject: [PATCH 12/95] fix: appliances are on during the whole duration
 sampled when switched on

---
 demod/simulators/appliance_simulators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..d026030 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -657,6 +657,8 @@ class AppliancesSimulator(TimeAwareSimulator):
         # update the variables iteration
         self.n_steps_left[self.n_steps_left > 0] -= 1
         self.n_steps_till_refresh[self.n_steps_till_refresh > 0] -= 1
+        # values cached before this update are outdated
+        self._cache.clear()
 
     @cached_getter
     def get_current_usage(self) -> np.ndarray:
@@ -1232,6 +1234,10 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             len(active_occupancy_) == self.n_households
         ), "active occupnacy length must match the number of households"
 
+        # Advances the appliances already on before switching on new ones,
+        # which will then be on during their whole duration
+        self.update_iteration_variables()
+
         # keeps track of the iterations to update the activities pdf
         if (self.current_time.minute % 10) == 0:
             # update the activites pdf every 10 min
@@ -1249,7 +1255,8 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
 
         self.switch_off_inactive(active_occupancy)
 
-        super().step()  # Updates the variables
+        # Bypass the AppliancesSimulator, as appliances were already updated
+        TimeAwareSimulator.step(self)
 
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
@@ -1422,6 +1429,10 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         TODO: check how we want to implement secondary appliances.
         """
+        # Advances the appliances already on before switching on new ones,
+        # which will then be on during their whole duration
+        self.update_iteration_variables()
+
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
@@ -1456,7 +1467,8 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         self.previous_act_dict = activities_dict.copy()
 
-        super().step()
+        # Bypass the AppliancesSimulator, as appliances were already updated
+        TimeAwareSimulator.step(self)
 
     def update_iteration_variables(self):
         """Check the load patterns that arrive to an end to restart them."""
-- 
2.43.0


From 7b8f9eab13e006339c4e9141c5e4e1634ad45083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 13/95] fix: switch-on of probabilistic appliances depends on
 their current state and ownership

---
 demod/simulators/appliance_simulators.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d026030..f653c22 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1876,11 +1876,10 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         to do anything there.
         """
         return (
-            (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
-                & ~np.isin(indexes_appliance, self.apps_dictated_start)
+            ~np.isin(indexes_appliance, self.apps_dictated_start)
+            * self._compute_switch_on_probs_for_one_time(
+                indexes_household, indexes_appliance
             )
-            * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
     def _compute_switch_on_probs_for_one_time(
@@ -1891,10 +1890,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         Appliances that can be switched on only after another one
         or when activity stops.
         """
-        return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
-            * self.switch_on_probs[indexes_household, indexes_appliance]
+        ids = (indexes_household, indexes_appliance)
+        # Reads the states, as they change within the step
+        mask_can_start = (
+            self.available_appliances[ids] & (self.n_steps_left[ids] <= 0)
         )
+        return mask_can_start * self.switch_on_probs[ids]
 
     def switch_off(self, indexes_household, indexes_appliance):
         """Switch off the appliances by setting time left to 0."""
-- 
2.43.0


From 87776e853f4c1bcb851f714f491d37e6c387bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 14/95] fix: several appliances can start after another
 appliance

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index f653c22..d094706 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1938,7 +1938,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From efb209c2fba831d7d006592a86e28896d77331bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 15/95] fix: probabilistic appliances do not require the data
 of previous appliances

---
 demod/simulators/appliance_simulators.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d094706..a9ee974 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1586,14 +1586,13 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
 
     def _assign_dictated_start(self):
         mask_dictated_start = np.zeros(self.appliances['number'], dtype=bool)
-        if 'previous_appliance_type' in self.appliances:
-            mask_dictated_start[
-                self.appliances['previous_appliance_type'] != 'nan'
-            ] = True
-        if 'previous_activity' in self.appliances:
-            mask_dictated_start[
-                self.appliances['previous_activity'] != 'nan'
-            ] = True
+        for key in ('previous_appliance_type', 'previous_activity'):
+            if key not in self.appliances:
+                # No appliance depends on a previous one
+                self.appliances[key] = np.full(
+                    self.appliances['number'], 'nan'
+                )
+            mask_dictated_start[self.appliances[key] != 'nan'] = True
 
         self.apps_dictated_start = np.where(mask_dictated_start)[0]
 
-- 
2.43.0


From 942c18ce6237e56eaf1b4b71ab5cc7e57edff30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:45 +0000
Subject: [PATCH 16/95] fix: appliance simulators do not change the subgroups
 they are given

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index a9ee974..fc4a198 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -299,7 +299,8 @@ class AppliancesSimulator(TimeAwareSimulator):
                 "the sum of 'n_households_list' "
             )
 
-        self.subgroups_list = subgroups_list
+        # Copies the subgroups, as their time attributes will be updated
+        self.subgroups_list = [sg.copy() for sg in subgroups_list]
 
         n_households_list = np.array(n_households_list, dtype=int)
         # keep in memory from which subgroup the hh are
-- 
2.43.0


From ee5f16d5260c29783eb229ad056cd0d2c9b3f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 17/95] fix: the appliances of the initial activities are on
 from the first record

---
 demod/simulators/appliance_simulators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index fc4a198..c1d0724 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -164,6 +164,7 @@ class AppliancesSimulator(TimeAwareSimulator):
             for delay in self.appliances["after_cycle_delay"]
         ]
         self.n_steps_till_refresh = np.asarray(delays, dtype=int).T
+        self._initialize_switched_on()
         initialization_time = kwargs.pop("initialization_time", None)
         return super().initialize_starting_state(
             *args, initialization_time=initialization_time, **kwargs
@@ -551,6 +552,10 @@ class AppliancesSimulator(TimeAwareSimulator):
             1, self.load_duration[mask_real_loads_on]
         )
 
+    def _initialize_switched_on(self):
+        """Switch on the appliances that are in use in the starting state."""
+        pass
+
     @ cached_getter
     def get_mask_available_appliances(self):
         """Return the appliances currently available in each households.
@@ -1391,11 +1396,14 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        super().initialize_starting_state(self, **kwargs)
         self.previous_act_dict = initial_activities_dict.copy()
 
+        super().initialize_starting_state(self, **kwargs)
+
+    def _initialize_switched_on(self) -> None:
+        """Switch on the appliances of the activities that are occuring."""
         # Records the position in the pattern of this appliance
-        for act, n_performing in initial_activities_dict.items():
+        for act, n_performing in self.previous_act_dict.items():
             # Gets indices of the appliances of act and the performing act
             app_ind = np.where(self.appliances['related_activity'] == act)[0]
             hh_ind = np.where(n_performing > 0)[0]
-- 
2.43.0


From c0f080f3aabcc27ce5fd529f35378323cc28d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 18/95] fix: appliances starting after an activity do so
 whatever activity they are related to

---
 demod/simulators/appliance_simulators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index c1d0724..7b1c38d 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1701,7 +1701,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
             # Sample the probability for each activity
             for activity, act_prob in activity_prob.items():
                 # Each appliance will have a target
-                mask_this_act = self.appliances['related_activity'] == activity
+                mask_this_act = (
+                    (self.appliances['related_activity'] == activity)
+                    # These are given in the special probs below
+                    & (self.appliances['previous_activity'] == 'nan')
+                )
                 # Possible switchon steps in the target period (year)
                 n_possible_steps = (
                     365.25 * 24 * 60 * 60 / self.step_size.total_seconds()
@@ -1816,7 +1820,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            if not np.any(
+                mask_apps_this_act | (self.appliances['previous_activity'] == act)
+            ):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From abb38e96cd794b54e218dba8bab426907f6e5aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 19/95] fix: default active occupancy of the Fisher lighting is
 given for each household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d980cfa..572da7b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From 8c9c732bd41599b8aa9789fe2ee624c4b4ef0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 20/95] fix: bulbs can be switched on again after a duration
 that is not a whole number of steps

---
 demod/simulators/crest_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index ecab529..5b87fd6 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -777,7 +777,8 @@ class CRESTLightingSimulator(Simulator):
 
         if method == "off":
             # crest data is initialized by having all lights off, times left = 0
-            return self.bulbs_power * 0
+            # (whole number of steps, so that bulbs are available when it is 0)
+            return np.array(self.bulbs_power * 0, int)
         else:
             raise ValueError(
                 'Unkown initialization method for lighting simulator. Available: "off" '
-- 
2.43.0


From 1cecee11d0f0fdf937cd7a06501cf13b8fd187e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 21/95] fix: the first record of the CREST lighting simulator
 is logged once its bulbs are known

---
 demod/simulators/crest_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 5b87fd6..feccba7 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -726,7 +726,6 @@ class CRESTLightingSimulator(Simulator):
         logger=None,
     ):
         super().__init__(n_households, logger=logger)
-        super().initialize_starting_state()
 
         self.bulbs_power = self.get_bulbs_configuration(data=data)
         self.bulbs_times_left = self.initialize_bulbs(initialization_method)
@@ -748,6 +747,8 @@ class CRESTLightingSimulator(Simulator):
             self.durations_high,
         ) = self.get_durations_cdf(data=data)
 
+        super().initialize_starting_state()
+
     def GTOU_sample_bulbs_config(self):
         path = OLD_DATASET_PATH + os.sep + "GermanTOU" + os.sep + "inputs.ods"
         df = pd.read_excel(path, header=75, sheet_name="Lighting")
-- 
2.43.0


From 5fd97a47abc921f547bd14315011f726ce05d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 22/95] fix: the heat demand of the five modules simulator uses
 its step size

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..28db556 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1682,6 +1682,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From f5fd494064fcf9cdc0d999e1e7a0157166becd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 23/95] fix: gas consumption is a flow in m^3/s and its energy
 is in Watts

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 28db556..1af8538 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1442,7 +1442,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * (
                         phi_space / self.max_Phi_h_space
                         + phi_dhw / self.max_Phi_h_dhw
@@ -1480,7 +1480,7 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = gas * 3600. / self.dblFuelFlowRate * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 4b4af453a5f306ec2ac071a43f34dd5902480052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 24/95] fix: heating systems without capacity or fuel consume
 no fuel instead of nan

---
 demod/simulators/heating_simulators.py | 29 ++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 1af8538..a8b676f 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1433,8 +1433,17 @@ class HeatingSystem(Simulator):
             (self.max_Phi_h_space > 0) | (self.max_Phi_h_dhw > 0)
         )
         heat_outputs = self.get_heat_outputs()
-        phi_space = heat_outputs["space_heating"]
-        phi_dhw = heat_outputs["dhw"]
+        # fraction of the capacity used, a unit without capacity is not used
+        load_fraction = sum(
+            np.divide(
+                phi, max_phi, out=np.zeros(self.n_households),
+                where=max_phi > 0,
+            )
+            for phi, max_phi in (
+                (heat_outputs["space_heating"], self.max_Phi_h_space),
+                (heat_outputs["dhw"], self.max_Phi_h_dhw),
+            )
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1443,10 +1452,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     / 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * load_fraction,
                     0,
                 )
             elif h_type == "Electricity":
@@ -1455,10 +1461,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * load_fraction,
                     0,
                 )
             else:
@@ -1480,7 +1483,11 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas * 3600. / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = np.divide(
+            gas * 3600. * self.flow_rate_to_W, self.dblFuelFlowRate,
+            out=np.zeros(self.n_households),
+            where=self.dblFuelFlowRate > 0,
+        )
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From c178e70292e217848c984aa1ddf608a354da271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 25/95] fix: external values are not truncated when the values
 they override are integers

---
 demod/simulators/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..ab281d7 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -34,10 +34,7 @@ def assign_external_array(
     """
     if external_array is None:
         return base_array
-    out = np.array(base_array)
-    mask_not_nan = ~np.isnan(external_array)
-    out[mask_not_nan] = external_array[mask_not_nan]
-    return out
+    return np.where(np.isnan(external_array), base_array, external_array)
 
 
 def assign_external_dict(base_dict, external_dict):
-- 
2.43.0


From d7d3eb33149a393fa9ffb623d63b47b17c39f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 26/95] fix: nan external target temperatures keep the target
 of the thermostats

---
 demod/simulators/heating_simulators.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index a8b676f..6bd253f 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -795,18 +795,25 @@ class Thermostats(Simulator):
 
         Args:
             target_temperatures: If array is used, it will be the target
-                for space heating.
+                for space heating. Nan values keep the current target.
         """
         if isinstance(target_temperatures, dict):
-            for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
+            new_targets = target_temperatures
         elif isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
-                target_temperatures
-            )
+            new_targets = {"space_heating": target_temperatures}
         else:
             raise TypeError("target_temperature must be dict or ndarray")
+        # nan values mean that the current target does not change
+        self.target_temperatures = {
+            **self.target_temperatures,
+            **{
+                key: assign_external_array(
+                    self.target_temperatures.get(key, item), item
+                )
+                for key, item in new_targets.items()
+            },
+        }
 
     def step(
         self,
-- 
2.43.0


From db1c344cc75a4cf81b34ee2eee57f89761425c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 27/95] fix: the external heat outputs given are not modified

---
 demod/simulators/heating_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 6bd253f..a9e1ec2 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1829,7 +1829,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            out_dict = external_heat_outputs.copy()
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
-- 
2.43.0


From feae3a477f3d54f6a185710d67cff50e017e9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 28/95] fix: values obtained from the heating simulators do not
 change with later steps

---
 demod/simulators/heating_simulators.py | 34 ++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index a9e1ec2..ddc3667 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -635,10 +635,14 @@ class BuildingThermalDynamics(Simulator):
         )
 
         # Update building thermal node temperatures for this time step
-        self.temperatures["building"] += d_T_b
-        self.temperatures["interior"] += d_T_i
-        self.temperatures["emitter"] += d_T_em
-        self.temperatures["cylinder"] += d_T_cyl
+        # (not in place, as the current ones might be used elsewhere)
+        self.temperatures = {
+            **self.temperatures,
+            "building": self.temperatures["building"] + d_T_b,
+            "interior": self.temperatures["interior"] + d_T_i,
+            "emitter": self.temperatures["emitter"] + d_T_em,
+            "cylinder": self.temperatures["cylinder"] + d_T_cyl,
+        }
 
         return super().step()
 
@@ -841,6 +845,8 @@ class Thermostats(Simulator):
         # is on and temperature has not reached T + deadband (continues to heat)
         # is off and temperature is below T - deadband (require switchon heating)
 
+        # (not in place, as the current states might be used elsewhere)
+        self.thermostat_states = self.thermostat_states.copy()
         # Hot water thermostat
         self.thermostat_states["hot_water"] = np.where(
             np.logical_or(
@@ -1113,6 +1119,8 @@ class HeatDemand(Simulator):
                 is 'room_estimation'. Defaults to None.
         """
 
+        # (not in place, as the current demand might be used elsewhere)
+        self.target_heat_demand = {}
         self.target_heat_demand[
             "dhw"
         ] = self._compute_target_heat_output_hot_water(
@@ -1251,6 +1259,8 @@ class SystemControls(Simulator):
         heater_onoff = heat_water_onoff | space_heating_onoff
 
         # assigns the new controls
+        # (not in place, as the current ones might be used elsewhere)
+        self.heating_controls = {}
         self.heating_controls["heater_on"] = heater_onoff
         self.heating_controls["heat_water_on"] = heat_water_onoff
         self.heating_controls["space_heating_on"] = space_heating_onoff
@@ -1530,6 +1540,8 @@ class HeatingSystem(Simulator):
         """
         #  Get the control signals from the heating controller
 
+        # (not in place, as the current outputs might be used elsewhere)
+        self.heat_outputs = {}
         # First case, if heat water is on
         # assign heat to hot water, bound by max and min values of the heating system
         requested_heat_output_dhw = np.clip(
@@ -1678,6 +1690,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # intialize the 5 sub simulators
         self.heatingsystem = HeatingSystem(n_households, data=data)
+        self.heat_outputs = self.heatingsystem.get_heat_outputs()
         self.thermostats_sim = Thermostats(n_households, data=data)
         self.building_sim = BuildingThermalDynamics(
             n_households,
@@ -1909,7 +1922,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         """
 
         # first get the inputs variables from the internal or external simulators
-        temperatures = self.building_sim.get_temperatures()
+        temperatures = self.building_sim.get_temperatures().copy()
 
         external_heat_outputs_dict = self._assign_external_heat_outputs(
             external_heat_outputs, external_dhw_outputs, external_sh_outputs
@@ -1925,8 +1938,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             temperatures["cylinder"], external_cylinder_temperature
         )
         # also assigns external cylinder in sim
-        self.building_sim.temperatures["cylinder"] = temperatures["cylinder"]
-
+        self.building_sim.temperatures = temperatures
 
         # update the simulators
         self.thermostats_sim.step(
@@ -1953,8 +1965,10 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # Computes the heat outputs for updating the building Temperatures
         heat_outputs = assign_external_dict(
-            self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
+            self.heatingsystem.get_heat_outputs().copy(),
+            external_heat_outputs_dict
         )
+        self.heat_outputs = heat_outputs
 
         self.building_sim.step(
             outside_temperature=outside_temperature,
@@ -1972,7 +1986,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
                 external_cylinder_temperature
             )
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
-                temperatures, dhw_heating_demand, target_temperature["dhw"]
+                self.building_sim.get_temperatures(), dhw_heating_demand, target_temperature["dhw"]
             )
 
         super().step()
@@ -2049,7 +2063,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         return self.building_sim.get_temperatures()
 
     def get_heat_outputs(self):
-        return self.heatingsystem.get_heat_outputs()
+        return self.heat_outputs
 
     def get_controls(self):
         return self.controls_sim.get_controls()
-- 
2.43.0


From 344c47edeec9f2025d3119f9866530ba2dcaecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 29/95] fix: the total heat output includes the outputs of
 external heating systems

---
 demod/simulators/heating_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index ddc3667..747d9ba 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1968,6 +1968,9 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             self.heatingsystem.get_heat_outputs().copy(),
             external_heat_outputs_dict
         )
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
         self.heat_outputs = heat_outputs
 
         self.building_sim.step(
-- 
2.43.0


From 693a49582fee0ead476119183c252d2d796a96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 30/95] fix: the variable thermostats accept a logger and a
 pattern attribution method

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 747d9ba..ceb416a 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -184,7 +184,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_occupancy,
         initial_act_occ,
         start_datetime,
-        *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -197,8 +197,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
             pattern_attribution_method (str): kwarg that determine the method for the attribution of the
                 temperature patterns
         """
-        super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        super().__init__(n_households, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From eec8d8306093a5d83d6e44322f96ec761bf0d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:15 +0000
Subject: [PATCH 31/95] fix: an external cylinder is taken into account from
 the step at which it is given

---
 demod/simulators/heating_simulators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index ceb416a..9803cf1 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1939,6 +1939,10 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         # also assigns external cylinder in sim
         self.building_sim.temperatures = temperatures
+        if external_cylinder_temperature is not None:
+            self.use_external_cylinder = ~np.isnan(
+                external_cylinder_temperature
+            )
 
         # update the simulators
         self.thermostats_sim.step(
@@ -1985,9 +1989,6 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # dhw demand is changed depending on the external cylinder
         if external_cylinder_temperature is not None:
-            self.use_external_cylinder = ~np.isnan(
-                external_cylinder_temperature
-            )
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
                 self.building_sim.get_temperatures(), dhw_heating_demand, target_temperature["dhw"]
             )
-- 
2.43.0


From bb89069f6b4ff5d19033418ab79afbeb884fd910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 32/95] fix: households with nan external heat output use their
 internal heating system

---
 demod/simulators/heating_simulators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 9803cf1..7f3ebf0 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1797,7 +1797,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
-        return heat_outputs_dict
+        # no external output for the households where it is nan
+        return {
+            key: np.where(np.isnan(heat_output), np.nan, output)
+            for key, output in heat_outputs_dict.items()
+        }
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
         """Check where a heat input was provided by external sources.
-- 
2.43.0


From 63ba6b7b432abea40bb6ada272303178ec93e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:06 +0000
Subject: [PATCH 33/95] fix: nan in external dhw or sh outputs keeps the value
 of the external heat outputs

---
 demod/simulators/heating_simulators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7f3ebf0..dfc57b1 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1861,14 +1861,20 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         if external_dhw_outputs is not None:
             # Creates the array to store the dhw
             out_dict["dhw"] = assign_external_array(
-                np.full(external_dhw_outputs.shape, np.nan),
+                out_dict.get(
+                    "dhw", np.full(external_dhw_outputs.shape, np.nan)
+                ),
                 external_dhw_outputs,
             )
 
         if external_sh_outputs is not None:
             # Creates the array to store the dhw
             out_dict["space_heating"] = assign_external_array(
-                np.full(external_sh_outputs.shape, np.nan), external_sh_outputs
+                out_dict.get(
+                    "space_heating",
+                    np.full(external_sh_outputs.shape, np.nan),
+                ),
+                external_sh_outputs,
             )
 
         return out_dict
-- 
2.43.0


From f5058e50021f54d9dbcc2a1d38cdd76bfee25d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 34/95] fix: clock of sparse simulators is at start_datetime
 after the initialization

---
 demod/simulators/sparse_simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index cfdb826..e676231 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,10 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the steps of the initialization reach start_datetime
+            self.time = start_datetime - start_datetimestep * (
+                datetime.timedelta(minutes=10)
+            )
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From ec7110dbcb48f7dfb13fca43dd1b330efd549ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 35/95] fix: lost states of sparse simulators go to the first
 state of the new day

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index e676231..dba60b4 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -578,7 +578,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From 8a91a57880385d64e351fc8c378f9dc672fc2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 36/95] fix: quarters of sparse simulators go from 1 to 4

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index dba60b4..13fb7f4 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -544,7 +544,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3 + 1
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From f7ae0b29ded5c0940300881a1f9cfdde6435872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 37/95] fix: refresh time callbacks when no step starts exactly
 at the refresh time

---
 demod/simulators/base_simulators.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index cb303ae..04f65fb 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -865,6 +865,20 @@ class TimeAwareSimulator(Simulator):
 # Type for the step method of the simulators (variable input, None output)
 
 
+def _starts_at_refresh_time(sim: TimeAwareSimulator) -> bool:
+    """Whether the next step is the first one from the refresh time on."""
+    refresh_time = sim.data.refresh_time
+    last_refresh = sim.current_time.replace(
+        hour=refresh_time.hour,
+        minute=refresh_time.minute,
+        second=refresh_time.second,
+        microsecond=refresh_time.microsecond,
+    )
+    if last_refresh > sim.current_time:
+        last_refresh -= datetime.timedelta(days=1)
+    return sim.current_time - last_refresh < sim.step_size
+
+
 def _day_from_4am(time: datetime.datetime) -> datetime.date:
     """Return the date of a day that starts at 4 am."""
     return (time - datetime.timedelta(hours=4)).date()
@@ -899,7 +913,7 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            if self.current_time.time() == self.data.refresh_time:
+            if _starts_at_refresh_time(self):
                 self.on_before_refresh_time()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -914,9 +928,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            previous_time = self.current_time.time()
+            is_refresh_step = _starts_at_refresh_time(self)
             out = step_method(self, *args, **kwargs)
-            if previous_time == self.data.refresh_time:
+            if is_refresh_step:
                 self.on_after_refresh_time()
             return out
         decorated_step.__doc__ = step_method.__doc__
-- 
2.43.0


From d1e4256a090351018e5a854f8700587cececdc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 38/95] fix: real population never samples categories of
 probability zero

---
 demod/simulators/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index ab281d7..5225a01 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -106,7 +106,10 @@ def sample_population(
     check_valid_cdf(cdf)
     if population_sampling_algo == 'real_population':
         lin_space = np.linspace(0, 1, n_samples)
-        inds = np.searchsorted(cdf, lin_space)
+        # round-off can end a cdf below 1
+        inds = np.searchsorted(cdf, lin_space * cdf[-1])
+        # nobody belongs to first categories of probability zero
+        inds = np.maximum(inds, np.argmax(cdf > 0))
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From 56b2318dd77d5c55f56661ae4ed66b0bc7e0b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 39/95] fix: TPMs of states counts each transition at its own
 states

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..aeadac0 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -650,7 +650,7 @@ def states_to_tpms(
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-        transition_matrice[states_indices] = states_counts
+        transition_matrice[tuple(states_indices)] = states_counts
         tpms.append(transition_matrice)
 
         # save the state for old state
-- 
2.43.0


From 53e7e2e506a883811b86bfe37faa50962c76721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 40/95] fix: persons of transitions with secondary states are
 those that perform them

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index aeadac0..32459a1 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From 05f4ac9fad581a7f68010eac94b129a22c7db35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 41/95] fix: transitions to the same state with string states
 or without end-start transitions

---
 demod/utils/parse_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 32459a1..9c36fe4 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -70,8 +70,10 @@ def states_to_transitions(
         # check that the state has really disappeared, and not that it changed
         mask_transition = (
             old_states != s if not include_same_state
-            else ~np.isnan(s)
+            else ~pandas.isnull(s)
         )
+        if i == 0 and ignore_end_start_transitions:
+            mask_transition = np.zeros(len(s), dtype=bool)
         transition_times.append(np.full(np.sum(mask_transition), i))
         transition_person.append(np.where(mask_transition)[0])
         transition_new_state.append(np.array(s[mask_transition]))
-- 
2.43.0


From 4379a868e76243d17d55e07be43d2ffd5e4e87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 42/95] fix: durations of states when no household changes
 state

---
 demod/metrics/states.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..105c49a 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -50,11 +50,12 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # calculate the durations
     durations = np.roll(time_indices, -1) - time_indices
     # merging the beggining and end if possible they are the same activities
-    durations[indices_last_household] = (
-        states.shape[1]
-        - time_indices[indices_last_household]
-        + time_indices[indices_first_household]
-    )
+    if len(durations) > 0:  # some households change states
+        durations[indices_last_household] = (
+            states.shape[1]
+            - time_indices[indices_last_household]
+            + time_indices[indices_first_household]
+        )
 
     # get the value of the new states
     corresponding_states = states[transitions_indices]
-- 
2.43.0


From 4c773039cb54562c8bd5a428c59b20fc3a9506a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 43/95] fix: state duration metric with states that occur in
 only one of the inputs

---
 demod/metrics/states.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 105c49a..80db9bc 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -357,13 +357,16 @@ def state_duration_distribution_metric(
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
         # Finds the cdf of the duration for that state
+        # (a state that never occurs has no duration)
+        dur_sim = dur_dict_sim.get(state, np.array([], dtype=int))
+        dur_mes = dur_dict_mes.get(state, np.array([], dtype=int))
         cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
+            np.bincount(dur_sim, minlength=n_times + 1)
+            / max(len(dur_sim), 1)
         )
         cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+            np.bincount(dur_mes, minlength=n_times + 1)
+            / max(len(dur_mes), 1)
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From 81711e82d521f8349e823488e0889d7480c9bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 44/95] fix: nodes and maximum number of edges of the states
 networks

---
 demod/metrics/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 80db9bc..02a92f8 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -186,7 +186,8 @@ def graph_metrics(
     times, source_nodes, end_nodes = np.where(directed_edges)
 
     source_nodes_id = np.char.add(np.char.add(
-        np.array(times, dtype=str),
+        # the edges come from the previous time (the end for the first)
+        np.array((times - 1) % len(directed_edges), dtype=str),
         ['_' for i in range(len(times))]),
         np.array(source_nodes, dtype=str)
     )
@@ -200,7 +201,7 @@ def graph_metrics(
     network_size = len(np.unique(np.c_[source_nodes_id, end_nodes_id]))
     network_density = len(source_nodes_id) / (
         # used nodes / the max number of nodes possible
-        (len(directed_edges)-1) * len(np.unique(source_nodes))**2
+        len(directed_edges) * len(np.unique(source_nodes))**2
     )
     centrality = np.mean(edge_weights)
     homophily = (
-- 
2.43.0


From 487c1f3e3fa190ba21e0b14947d93abe5cc7f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 45/95] fix: load duration of a single profile

---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From ea88c52377bda615d41e70bc9de0308c8e3e2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 46/95] fix: bins of the cumulative changes in demand

---
 demod/metrics/loads.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..0b4554e 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -176,7 +176,9 @@ def cumulative_changes_in_demand(
     max_change = np.max(changes)
 
     if normalize:
-        changes /= max_change
+        # (changes of flat profiles stay at 0)
+        changes = changes / (max_change if max_change > 0 else 1)
+        max_change = 1
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
@@ -184,10 +186,10 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if np.max(changes) > bin_edges[-1]:
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
-                "largest value change {}. (must be striclty greater)."
+                "largest value change {}. (must be greater or equal)."
             ).format(bin_edges[-1], max_change))
         if np.min(changes) < bin_edges[0]:
             raise ValueError((
@@ -195,9 +197,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, bin_edges = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From 9f7331eac9081a4f7f37d8cc11e59c69f8e6373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 47/95] fix: irradiance at the start of simulations that do not
 start at midnight

---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..00279eb 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From 2cc3f56286dc4b06ea76abc9db7ac47e58c1a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 48/95] fix: climate of days simulated from midnight whatever
 the start time

---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 00279eb..af126fb 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -330,7 +330,10 @@ class CrestClimateSimulator(ClimateSimulator):
         kwargs.pop("logger", None)
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            # whole days are simulated
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From e388b1196eec7e7c127bd7487716bc66c9051364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 49/95] fix: day of the year of the days simulated by the
 climate simulator

---
 demod/simulators/weather_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index af126fb..d8c14df 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -430,7 +430,9 @@ class CrestClimateSimulator(ClimateSimulator):
 
         # Calculate Td_model_Ar and Td_model_ARMA
         td = self.arma_dic["T_mean"] + self.arma_dic["T_std"] * math.sin(
-            360.0 * self.get_day_of_year() / 365.0 * math.pi / 180.0
+            # the irradiance simulator is at the start of the simulated day
+            360.0 * self.irradiance_sim.get_day_of_year()
+            / 365.0 * math.pi / 180.0
             + self.arma_dic["T_shift"] / 365.0 * 2.0 * math.pi
         )
         self.Td_ar = td + self.ar
@@ -440,7 +442,9 @@ class CrestClimateSimulator(ClimateSimulator):
         # determine the extraterrestrial irradiance
         self.cSolarConstant = 1367 * (
             1
-            + (0.034 * math.cos(2 * math.pi * self.get_day_of_year() / 365.25))
+            + (0.034 * math.cos(
+                2 * math.pi * self.irradiance_sim.get_day_of_year() / 365.25
+            ))
         )
 
     def get_day_of_year(self):
-- 
2.43.0


From aa7db60f9a6539844d2234793f3e4b490785bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 50/95] fix: time zones of simulators of historical climate
 data

---
 demod/simulators/weather_simulators.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index d8c14df..f643d1c 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -22,6 +22,15 @@ from .base_simulators import (
 import numpy as np
 
 
+def _from_utc(
+    utc_time: datetime.datetime, tzinfo: Union[None, datetime.tzinfo]
+) -> datetime.datetime:
+    """Convert a naive utc time to the time zone (naive if it is None)."""
+    if tzinfo is None:
+        return utc_time
+    return utc_time.replace(tzinfo=datetime.timezone.utc).astimezone(tzinfo)
+
+
 class ClimateSimulator(TimeAwareSimulator):
     """Absract class for climate simulators.
     """
@@ -642,8 +651,8 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
+        intialization_time = _from_utc(
+            intialization_time, start_datetime.tzinfo
         )
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
@@ -768,8 +777,8 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
+        intialization_time = _from_utc(
+            intialization_time, start_datetime.tzinfo
         )
 
         # Checks that the data does not start after the start datetime
-- 
2.43.0


From c4ad79a655eef11796a9384736329caff7a8a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 51/95] fix: clearness of the climate simulators is a number,
 like the first one

---
 demod/simulators/weather_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index f643d1c..833d11d 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -161,9 +161,9 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
+        self._clearness_state = int(monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0])
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From a172de8bb80e43fc797571ff9af11a3341b51f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 52/95] fix: an interrupted load of a dataset leaves no
 incomplete parsed file

Parsed data were written in place: a process killed while saving (or another
one loading at this time) left a truncated file, with which all further loads
failed, as only missing files are parsed again.
---
 demod/datasets/base_loader.py | 58 ++++++++++++++++++++---------------
 demod/datasets/tou_loader.py  | 25 +++++++++------
 demod/utils/file_helpers.py   | 29 ++++++++++++++++++
 demod/utils/sparse.py         | 20 ++++++++----
 4 files changed, 93 insertions(+), 39 deletions(-)
 create mode 100644 demod/utils/file_helpers.py

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..b8a703d 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
+from ..utils.file_helpers import atomic_write
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -230,7 +231,7 @@ class DatasetLoader:
         file_path = os.path.join(self.parsed_path, file_name + ".json")
         # Only days, seconds and microseconds are stored internally,
         # in timedelta objects
-        with open(file_path, "w+") as f:
+        with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
             json.dump(
                 {
                     "days": step_size.days,
@@ -328,11 +329,14 @@ class DatasetLoader:
             raise TypeError("Arg 'array' must be ndarray or list or tuple.")
 
         if compress:
-            np.savez_compressed(file_path, *array_list)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez_compressed(tmp, *array_list)
         elif npz:
-            np.savez(file_path, *array_list)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, *array_list)
         else:
-            np.save(file_path, array)
+            with atomic_write(file_path + '.npy') as tmp:
+                np.save(tmp, array)
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
@@ -383,7 +387,7 @@ class PopulationLoader(DatasetLoader):
                 population_dict['total_number']
              ) = self._parse_population_subgroups(population_type)
 
-            with open(app_file, "w+") as f:
+            with atomic_write(app_file) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(population_dict), f, indent=2)
 
         return (
@@ -438,7 +442,7 @@ class ApplianceLoader(DatasetLoader):
                     ).format(type(self).__name__)
                 )
 
-            with open(app_file, "w+") as f:
+            with atomic_write(app_file) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(appliance_dict), f, indent=2)
 
         return lists_to_numpy_array(appliance_dict)
@@ -486,7 +490,8 @@ class ApplianceLoader(DatasetLoader):
                 for name, load in names_dict.items():
                     parsed_dict[app_type + self._SPLIT_CHAR + name] = load
             # Compress as the load profiles might be quite heavy
-            np.savez_compressed(app_file, **parsed_dict)
+            with atomic_write(app_file + '.npz') as tmp:
+                np.savez_compressed(tmp, **parsed_dict)
 
         return load_profiles_dict
 
@@ -546,7 +551,8 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             ownership_dict = self._parse_appliance_ownership_dict(subgroup)
-            np.savez(file_path, **ownership_dict)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **ownership_dict)
 
         return ownership_dict
 
@@ -601,7 +607,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_switchons(subgroup)
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -658,7 +664,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_consumption(subgroup)
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -718,7 +724,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_duration(subgroup)
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -782,8 +788,10 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as f_err:
             self._warn_could_not_load_parsed(f_err, file_path)
             clearness_tpms, labels, step_size = self._parse_clearness_tpms()
-            np.save(file_path, clearness_tpms)
-            np.save(labels_path, labels)
+            with atomic_write(file_path + '.npy') as tmp:
+                np.save(tmp, clearness_tpms)
+            with atomic_write(labels_path + '.npy') as tmp:
+                np.save(tmp, labels)
             self._save_step_size(step_size_file_name, step_size)
 
         return clearness_tpms, labels, step_size
@@ -807,7 +815,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "temperatures_arma.json")
             geo_dic = self._parse_temperatures_arma()
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -838,7 +846,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "geographic_data.json")
             geo_dic = self._parse_geographic_data()
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -880,7 +888,8 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_path)
             climate_dict = self._parse_historical_climate_data()
-            np.savez_compressed(file_path, **climate_dict)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez_compressed(tmp, **climate_dict)
 
         # Check for aware datetime
         if start_datetime.tzinfo is not None:
@@ -941,7 +950,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "fisher_lighting.json")
             fisher_dic = self._parse_fisher_lighting()
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(fisher_dic, f)
 
         return fisher_dic
@@ -966,7 +975,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "crest_lighting.json")
             crest_dic = self._parse_crest_lighting()
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(crest_dic), f)
 
         return lists_to_numpy_array(crest_dic)
@@ -1002,7 +1011,7 @@ class LightingLoader(DatasetLoader):
                 'bulbs_consumption': bulbs_consumption,
                 'bulbs_penetration': bulbs_penetration,
             }
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(bulbs_dic), f)
 
         return (
@@ -1039,7 +1048,8 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, file_path)
             bulbs = self._parse_bulbs_config(subgroup)
-            np.save(file_path, bulbs)
+            with atomic_write(file_path + '.npy') as tmp:
+                np.save(tmp, bulbs)
 
         return bulbs
 
@@ -1075,7 +1085,7 @@ class LightingLoader(DatasetLoader):
                     'mean': mean,
                     'std': std,
                 }
-            with open(file_path, "w+") as f:
+            with atomic_write(file_path) as tmp, open(tmp, "w+") as f:
                 json.dump(dic, f)
 
         return dic['mean'], dic['std']
@@ -1117,7 +1127,7 @@ class HeatingLoader(DatasetLoader):
 
             buildings_dict = self._parse_buildings_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with atomic_write(app_file) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(buildings_dict), f, indent=2)
 
         return lists_to_numpy_array(buildings_dict)
@@ -1149,7 +1159,7 @@ class HeatingLoader(DatasetLoader):
 
             heating_system_dict = self._parse_heating_system_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with atomic_write(app_file) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(heating_system_dict), f, indent=2)
 
         return lists_to_numpy_array(heating_system_dict)
@@ -1181,7 +1191,7 @@ class HeatingLoader(DatasetLoader):
 
             thermostat_dict = self._parse_thermostat_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with atomic_write(app_file) as tmp, open(tmp, "w+") as f:
                 json.dump(make_jsonable(thermostat_dict), f, indent=2)
 
         return lists_to_numpy_array(thermostat_dict)
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..75313a9 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,4 +1,5 @@
 from datetime import datetime, time
+from demod.utils.file_helpers import atomic_write
 from demod.utils.monte_carlo import PDFs
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
@@ -78,14 +79,15 @@ class LoaderTOU(DatasetLoader):
             tpm_dict['labels'] = labels
             tpm_dict['initial_pdf'] = initial_pdf
 
-            np.savez(file_path, **tpm_dict)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with atomic_write(legend_path) as tmp, open(tmp, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, labels, initial_pdf
@@ -146,14 +148,15 @@ class LoaderTOU(DatasetLoader):
                 labels, initial_pdf, initial_duration_pdfs
             )
 
-            np.savez(file_path, **tpm_dict)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with atomic_write(legend_path) as tmp, open(tmp, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, duration_pdfs, labels, initial_pdf, initial_duration_pdfs
@@ -222,7 +225,7 @@ class LoaderTOU(DatasetLoader):
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with atomic_write(legend_path) as tmp, open(tmp, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return sparse_tpm, labels, activity_labels, initial_pdf
@@ -288,7 +291,8 @@ class LoaderTOU(DatasetLoader):
             activity_profiles = self._parse_activity_profiles(
                 subgroup
             )
-            np.savez(file_path, **activity_profiles)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **activity_profiles)
 
         return activity_profiles
 
@@ -347,7 +351,8 @@ class LoaderTOU(DatasetLoader):
             act_occurences = self._parse_daily_activity_starts(
                 subgroup
             )
-            np.savez(file_path, **act_occurences)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **act_occurences)
 
         return act_occurences
 
@@ -395,7 +400,8 @@ class LoaderTOU(DatasetLoader):
             act_durations = self._parse_activity_duration(
                 subgroup
             )
-            np.savez(file_path, **act_durations)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **act_durations)
 
         return act_durations
 
@@ -432,7 +438,8 @@ class LoaderTOU(DatasetLoader):
             act_proabs = self._parse_activity_probabilities(
                 subgroup
             )
-            np.savez(file_path, **act_proabs)
+            with atomic_write(file_path + '.npz') as tmp:
+                np.savez(tmp, **act_proabs)
         return act_proabs
 
     def _parse_activity_probabilities(
diff --git a/demod/utils/file_helpers.py b/demod/utils/file_helpers.py
new file mode 100644
index 0000000..56fefe8
--- /dev/null
+++ b/demod/utils/file_helpers.py
@@ -0,0 +1,29 @@
+"""Helper functions for writing files."""
+from contextlib import contextmanager
+import os
+from typing import Iterator
+import uuid
+
+
+@contextmanager
+def atomic_write(path: str) -> Iterator[str]:
+    """Give a temporary path, which replaces path once fully written.
+
+    If the writing is interrupted, there is nothing new at path,
+    and whoever reads it never sees an incomplete file.
+
+    Args:
+        path: The path of the file to write (including its extension).
+
+    Yields:
+        The path where to write. It has the same extension as path.
+    """
+    folder, name = os.path.split(path)
+    tmp_path = os.path.join(folder, '.{}-{}'.format(uuid.uuid4().hex, name))
+    try:
+        yield tmp_path
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 6e9be68..cb0b5d0 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -10,6 +10,8 @@ import os
 import warnings
 import numpy as np
 
+from .file_helpers import atomic_write
+
 
 class SparseTPM():
     """A sparse implementation of the Transition probability Matrices.
@@ -222,13 +224,19 @@ class SparseTPM():
         Args:
             path: The path to which the TPM should be saved.
         """
-        np.save(path+'_tpm_times', self.times)
-        np.save(path+'_tpm_inds_from', self.inds_from)
-        np.save(path+'_tpm_inds_to', self.inds_to)
-        np.save(path+'_tpm_values', self.values)
-        # the shape cannot be recovered from the transitions
+        # the shape cannot be recovered from the transitions, it comes first
+        # so that a TPM that was not completely saved has no values
         dead = -1 if self.dead_state_value is None else self.dead_state_value
-        np.save(path+'_tpm_shape', [self.n_states, self.n_times, dead])
+        with atomic_write(path+'_tpm_shape.npy') as tmp:
+            np.save(tmp, [self.n_states, self.n_times, dead])
+        with atomic_write(path+'_tpm_times.npy') as tmp:
+            np.save(tmp, self.times)
+        with atomic_write(path+'_tpm_inds_from.npy') as tmp:
+            np.save(tmp, self.inds_from)
+        with atomic_write(path+'_tpm_inds_to.npy') as tmp:
+            np.save(tmp, self.inds_to)
+        with atomic_write(path+'_tpm_values.npy') as tmp:
+            np.save(tmp, self.values)
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
-- 
2.43.0


From cbdda2e371e4bdac45f40f8fd99f38ecfbdffe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 53/95] fix: the folders of parsed data may be created by
 another process meanwhile

---
 demod/datasets/base_loader.py | 25 +++++++++++++------------
 demod/datasets/tou_loader.py  |  5 +++--
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b8a703d..83957b0 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -10,6 +10,7 @@ from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
 
 import os
 import json
+from pathlib import Path
 import shutil
 from typing import Any, Dict, List, Tuple, Union
 import warnings
@@ -88,14 +89,14 @@ class DatasetLoader:
 
         # Creates the directories if they do not exist
         if not os.path.exists(self.parsed_path):
-            os.mkdir(self.parsed_path)
+            Path(self.parsed_path).mkdir(exist_ok=True)
         if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+            Path(self.raw_path).mkdir(exist_ok=True)
 
         if version is not None:
             self.parsed_path = os.path.join(self.parsed_path, version)
             if not os.path.isdir(self.parsed_path):
-                os.mkdir(self.parsed_path)
+                Path(self.parsed_path).mkdir(exist_ok=True)
 
         self.version = version
 
@@ -341,7 +342,7 @@ class DatasetLoader:
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
         if not os.path.isdir(self.parsed_path):
-            os.mkdir(self.parsed_path)
+            Path(self.parsed_path).mkdir(exist_ok=True)
 
 
 class PopulationLoader(DatasetLoader):
@@ -353,7 +354,7 @@ class PopulationLoader(DatasetLoader):
             self.parsed_path, 'population'
         )
         if not os.path.isdir(self.parsed_population_folder):
-            os.mkdir(self.parsed_population_folder)
+            Path(self.parsed_population_folder).mkdir(exist_ok=True)
 
     def load_population_subgroups(
         self, population_type: str,
@@ -541,7 +542,7 @@ class ApplianceLoader(DatasetLoader):
         folder_name = "appliance_ownership"
         parsed_path_ownership = self.parsed_path + os.sep + folder_name
         if not os.path.exists(parsed_path_ownership):
-            os.mkdir(parsed_path_ownership)
+            Path(parsed_path_ownership).mkdir(exist_ok=True)
 
         file_name = folder_name + os.sep + "ownership__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -596,7 +597,7 @@ class ApplianceLoader(DatasetLoader):
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
         if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+            Path(parsed_path_targets).mkdir(exist_ok=True)
 
         file_name = folder_name + os.sep + "switchons__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -653,7 +654,7 @@ class ApplianceLoader(DatasetLoader):
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
         if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+            Path(parsed_path_targets).mkdir(exist_ok=True)
 
         file_name = folder_name + os.sep + "consumption__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -713,7 +714,7 @@ class ApplianceLoader(DatasetLoader):
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
         if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+            Path(parsed_path_targets).mkdir(exist_ok=True)
 
         file_name = folder_name + os.sep + "duration__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -761,7 +762,7 @@ class ClimateLoader(DatasetLoader):
         super().__init__(**kwargs)
         self.parsed_path_climate = os.path.join(self.parsed_path, "climate")
         if not os.path.isdir(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+            Path(self.parsed_path_climate).mkdir(exist_ok=True)
 
     def load_clearness_tpms(self) -> Tuple[TPM, StateLabels, timedelta]:
         """Return TPM for the clearness of the sky, with the labels.
@@ -934,7 +935,7 @@ class LightingLoader(DatasetLoader):
             self.parsed_path, 'bulbs'
         )
         if not os.path.isdir(self.parsed_bulbs_folder):
-            os.mkdir(self.parsed_bulbs_folder)
+            Path(self.parsed_bulbs_folder).mkdir(exist_ok=True)
 
     def load_fisher_lighting(self) -> Dict[str, Any]:
         """Load data for
@@ -1105,7 +1106,7 @@ class HeatingLoader(DatasetLoader):
             self.parsed_path, 'heating'
         )
         if not os.path.isdir(self.parsed_heating_folder):
-            os.mkdir(self.parsed_heating_folder)
+            Path(self.parsed_heating_folder).mkdir(exist_ok=True)
     def load_buildings_dict(
         self, subgroup: Subgroup = {}
     ) -> Dict[str, np.ndarray]:
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 75313a9..f489cef 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -5,6 +5,7 @@ from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
 import os
 import json
+from pathlib import Path
 from typing import Any, Tuple
 
 import numpy as np
@@ -42,7 +43,7 @@ class LoaderTOU(DatasetLoader):
         self._check_make_parsed_dir()
         # make the dir of the parsed path activity type
         if not os.path.exists(self.parsed_path_activity):
-            os.mkdir(self.parsed_path_activity)
+            Path(self.parsed_path_activity).mkdir(exist_ok=True)
 
     def load_tpm(
         self, subgroup: Subgroup
@@ -307,7 +308,7 @@ class LoaderTOU(DatasetLoader):
             'ActivityStats'
         )
         if not os.path.isdir(self.parsed_path_activity_stats):
-            os.mkdir(self.parsed_path_activity_stats)
+            Path(self.parsed_path_activity_stats).mkdir(exist_ok=True)
 
     def load_daily_activity_starts(
         self, subgroup: Subgroup
-- 
2.43.0


From f51a7446c94512987468dc1092084bb4195bdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 54/95] fix: an interrupted download leaves no incomplete raw
 file

A truncated file was taken for the downloaded one in all further runs, and the
content of zip files was never extracted. Parsed data of an older download do
not survive the new one.
---
 demod/datasets/CREST/loader.py           |  6 ++++--
 demod/datasets/DESTATIS/loader.py        |  3 ++-
 demod/datasets/GermanTOU/loader.py       | 12 +++++++-----
 demod/datasets/Germany/loader.py         |  3 ++-
 demod/datasets/RenewablesNinja/loader.py | 14 ++++++++------
 demod/datasets/tracebase/loader.py       | 12 +++++++-----
 6 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 56e7582..f8aa1e3 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -36,6 +36,7 @@ from ...utils.subgroup_handling import (
     subgroup_string,
 )
 from ...utils.distribution_functions import rescale_pdf
+from ...utils.file_helpers import atomic_write
 from ...utils.parse_helpers import remove_spaces, translate_1d, bulbs_stats_from_config
 from ..tou_loader import LoaderTOU
 from .utils import (
@@ -100,8 +101,9 @@ class Crest(
             # Reads the url and  download the
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
             with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
-                with open(self.raw_file_path, 'wb') as f:
-                    shutil.copyfileobj(response, f)
+                with atomic_write(self.raw_file_path) as tmp:
+                    with open(tmp, 'wb') as f:
+                        shutil.copyfileobj(response, f)
 
     def load_population_subgroups(
         self, population_type: str = "crest",
diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index 0faf75c..ac15c95 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -4,6 +4,7 @@ from typing import Dict, List, Tuple, Union
 import numpy as np
 import pandas as pd
 from urllib import request
+from ...utils.file_helpers import atomic_write
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.appliances import assign_ownership_from_prob1_and_number
 from ...utils.subgroup_handling import remove_time_attributues
@@ -144,7 +145,7 @@ class Destatis(ApplianceLoader, PopulationLoader):
             # Reads the url and  download the zip archive
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(data_path, 'wb') as f:
+            with atomic_write(data_path) as tmp, open(tmp, 'wb') as f:
                 f.write(datatowrite)
 
 
diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 50a3f34..6f938be 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -12,6 +12,7 @@ import zipfile
 from ..tou_loader import LoaderTOU
 from ..base_loader import GITHUB_REPO_URL, PopulationLoader
 from ..DESTATIS.loader import Destatis
+from ...utils.file_helpers import atomic_write
 from ...utils.parse_helpers import convert_states, states_to_transitions
 from ...utils.sim_types import *
 from ...utils.monte_carlo import PDFs
@@ -144,11 +145,12 @@ class GTOU(LoaderTOU, PopulationLoader):
             else:
                 raise e
         datatowrite = response.read()
-        with open(parsed_zip_filepath, 'wb') as f:
-            f.write(datatowrite)
-        # Now the file is downloaded
-        with zipfile.ZipFile(parsed_zip_filepath, 'r') as zip_obj:
-            zip_obj.extractall(self.parsed_path_activity)
+        with atomic_write(parsed_zip_filepath) as tmp:
+            with open(tmp, 'wb') as f:
+                f.write(datatowrite)
+            # The zip is there only once its content also is
+            with zipfile.ZipFile(tmp, 'r') as zip_obj:
+                zip_obj.extractall(self.parsed_path_activity)
 
 
     def _parse_tpm(self, subgroup: Subgroup):
diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index fcc7ff7..0b85665 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -6,6 +6,7 @@ from urllib import request
 import numpy as np
 import pandas as pd
 
+from ...utils.file_helpers import atomic_write
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.parse_helpers import remove_spaces
 from typing import Any, Dict, List, Tuple
@@ -89,7 +90,7 @@ class GermanDataHerus(
             ))
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(self.raw_file_path, 'wb') as f:
+            with atomic_write(self.raw_file_path) as tmp, open(tmp, 'wb') as f:
                 f.write(datatowrite)
 
         self.refresh_time = self.activity_data.refresh_time
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index a195e7b..f583629 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -13,6 +13,7 @@ import zipfile
 
 import numpy as np
 import pandas as pd
+from ...utils.file_helpers import atomic_write
 from ..base_loader import ClimateLoader
 from ...utils.countries import country_name_to_code, is_country_code
 
@@ -114,12 +115,13 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         # Reads the url and  download the
         with urllib.request.urlopen(request) as response:
-            with open(self.raw_file_path, 'wb') as f:
-                shutil.copyfileobj(response, f)
-        print('download finished')
-        # Now the file is downloaded, we can remove old parsed data
-        for f in os.listdir(self.parsed_path_climate):
-            os.remove(os.path.join(self.parsed_path_climate, f))
+            with atomic_write(self.raw_file_path) as tmp:
+                with open(tmp, 'wb') as f:
+                    shutil.copyfileobj(response, f)
+                print('download finished')
+                # Now the file is downloaded, we can remove old parsed data
+                for f in os.listdir(self.parsed_path_climate):
+                    os.remove(os.path.join(self.parsed_path_climate, f))
 
 
 
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6363ed5..6e7c865 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -23,6 +23,7 @@ import zipfile
 import numpy as np
 import pandas as pd
 
+from ...utils.file_helpers import atomic_write
 from ..base_loader import ApplianceLoader
 
 
@@ -124,11 +125,12 @@ class Tracebase(ApplianceLoader):
             print('This can take some time.')
             # Reads the url and  download the zip archive
             with  urllib.request.urlopen(download_url) as response:
-                with open(raw_zip_filepath, 'wb') as f:
-                    shutil.copyfileobj(response, f)
-            # Now the file is downloaded
-            with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
-                zip_obj.extractall(self.raw_path)
+                with atomic_write(raw_zip_filepath) as tmp:
+                    with open(tmp, 'wb') as f:
+                        shutil.copyfileobj(response, f)
+                    # The zip is there only once its content also is
+                    with zipfile.ZipFile(tmp, 'r') as zip_obj:
+                        zip_obj.extractall(self.raw_path)
 
     def _parse_real_profiles_dict(self, profiles_type: str):
         if profiles_type == 'switchedON':
-- 
2.43.0


From 57e973d475ef82820ad238dc6b0b7bb93472b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 55/95] fix: parsed climate data of renewables.ninja depend on
 the weighting

The data parsed first were returned for all the weighted types of a country.
---
 demod/datasets/RenewablesNinja/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index f583629..de5aefc 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -68,7 +68,11 @@ class NinjaRenewablesClimate(ClimateLoader):
         super().__init__(**kwargs)
         # Creates the path for the requested country
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate,
+            # Each weighting has its own data
+            country_name if weighted_type == 'population'
+            else country_name + '_' + weighted_type
+        )
         # creates the parsed path
         if not os.path.exists(self.parsed_path_climate):
             os.mkdir(self.parsed_path_climate)
-- 
2.43.0


From 722228f06a5b9d736acb39cc50e826d017acf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 56/95] fix: the other folders of the datasets may also be
 created by another process

---
 demod/datasets/CREST/loader.py            | 3 +--
 demod/datasets/OpenPowerSystems/loader.py | 3 +--
 demod/datasets/RenewablesNinja/loader.py  | 6 ++----
 demod/datasets/tracebase/loader.py        | 3 +--
 4 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index f8aa1e3..ce0479f 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -211,8 +211,7 @@ class Crest(
         self._check_crest_subgroup(subgroup)
 
         tpm_path = self.parsed_path + os.sep + "4_States"
-        if not os.path.exists(tpm_path):
-            os.mkdir(tpm_path)
+        os.makedirs(tpm_path, exist_ok=True)
         tpm_file_name = "".join(
             ("4_States", os.sep, "tpm__", subgroup_string(subgroup))
         )
diff --git a/demod/datasets/OpenPowerSystems/loader.py b/demod/datasets/OpenPowerSystems/loader.py
index dd07b87..6e59297 100644
--- a/demod/datasets/OpenPowerSystems/loader.py
+++ b/demod/datasets/OpenPowerSystems/loader.py
@@ -36,8 +36,7 @@ class OpenPowerSystemClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        os.makedirs(self.parsed_path_climate, exist_ok=True)
 
         self.country = country_name
 
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index de5aefc..e0d11e8 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -74,11 +74,9 @@ class NinjaRenewablesClimate(ClimateLoader):
             else country_name + '_' + weighted_type
         )
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        os.makedirs(self.parsed_path_climate, exist_ok=True)
         # Creates the raw path
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        os.makedirs(self.raw_path, exist_ok=True)
 
         self.country = country_name
 
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6e7c865..ebb5578 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -113,8 +113,7 @@ class Tracebase(ApplianceLoader):
             clear_parsed_data=clear_parsed_data or update_raw_data
         )
         self.step_size = step_size
-        if not os.path.isdir(self.raw_path):
-            os.mkdir(self.raw_path)
+        os.makedirs(self.raw_path, exist_ok=True)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
         if update_raw_data:
-- 
2.43.0


From 98041a4bbbb658eb5fabfb3ebe26a9e8a7e18bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 57/95] fix: raw data of tracebase are kept until their update
 is downloaded

---
 demod/datasets/tracebase/loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index ebb5578..08b69e5 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -116,9 +116,7 @@ class Tracebase(ApplianceLoader):
         os.makedirs(self.raw_path, exist_ok=True)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
-        if update_raw_data:
-            os.remove(raw_zip_filepath)
-        if not os.path.isfile(raw_zip_filepath):
+        if update_raw_data or not os.path.isfile(raw_zip_filepath):
             download_url = 'https://github.com/areinhardt/tracebase/archive/refs/heads/master.zip'
             print('Downloading tracebase raw data from {}.'.format(download_url))
             print('This can take some time.')
@@ -128,6 +126,8 @@ class Tracebase(ApplianceLoader):
                     with open(tmp, 'wb') as f:
                         shutil.copyfileobj(response, f)
                     # The zip is there only once its content also is
+                    if os.path.isfile(raw_zip_filepath):
+                        os.remove(raw_zip_filepath)
                     with zipfile.ZipFile(tmp, 'r') as zip_obj:
                         zip_obj.extractall(self.raw_path)
 
-- 
2.43.0


From 41b0ef510d21767e91de48ebe8e8fd57b4ed1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 58/95] fix: a missing number of appliances is recognised
 whatever its float type

---
 demod/utils/appliances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/appliances.py b/demod/utils/appliances.py
index 3db9f89..ae17f92 100644
--- a/demod/utils/appliances.py
+++ b/demod/utils/appliances.py
@@ -185,7 +185,7 @@ def assign_ownership_from_prob1_and_number(
         corresponds to the prob of owning
         a i-eth copy of the appliance.
     """
-    if number is np.nan:
+    if np.isnan(number):
         number = prob_1
     if (prob_1 > number) or (prob_1 < 0) or (prob_1 > 1) or (number < 0):
         raise ValueError(
-- 
2.43.0


From 0f5810423234ebd76f9ddcbb5ba3e32da08f8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 59/95] fix: subgroups are ordered as documented

---
 demod/utils/subgroup_handling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/utils/subgroup_handling.py b/demod/utils/subgroup_handling.py
index 29f085a..bbc0167 100644
--- a/demod/utils/subgroup_handling.py
+++ b/demod/utils/subgroup_handling.py
@@ -36,9 +36,9 @@ class Subgroup(dict):
                     type(self), type(other)
                 )
             )
-        if len(other) > len(self):
+        if len(self) > len(other):
             return True
-        elif len(other) < len(self):
+        elif len(self) < len(other):
             return False
         else:
             for key in sorted(list(self.keys()) + list(other.keys())):
@@ -46,9 +46,9 @@ class Subgroup(dict):
                     return True
                 if key not in self:
                     return False
-                if other[key] > self[key]:
+                if self[key] > other[key]:
                     return True
-                if other[key] < self[key]:
+                if self[key] < other[key]:
                     return False
         return False
 
-- 
2.43.0


From 06b3901b8f5f97a0ca027b1fd249b0e5aed3f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 60/95] fix: the error on the weekday format tells the weekday
 given

---
 demod/utils/subgroup_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/subgroup_handling.py b/demod/utils/subgroup_handling.py
index bbc0167..e3eb958 100644
--- a/demod/utils/subgroup_handling.py
+++ b/demod/utils/subgroup_handling.py
@@ -133,7 +133,7 @@ def check_weekend_day_format(subgroup: Subgroup):
         raise ValueError(
             " 'subgroup' is not weekdays or weekend format"
             " 'subgroup['weekday']' is {}, should be '[1, 2, 3, 4, 5]'"
-            " or '[6, 7]' of type 'list' "
+            " or '[6, 7]' of type 'list' ".format(subgroup["weekday"])
         )
 
 
-- 
2.43.0


From d169c0472a9ce63faf948f2f45b944f0d61847d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 61/95] fix: parsed dictionaries with numpy numbers or missing
 values are also returned when they are first parsed

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9c36fe4..14ef506 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -390,7 +390,7 @@ def lists_to_numpy_array(object: Any):
         }
     elif isinstance(object, (np.ndarray, list, pandas.Series)):
         return np.asarray(object)
-    elif isinstance(object, (str, int, float)):
+    elif object is None or isinstance(object, (str, int, float, np.generic)):
         return object
 
     else:
-- 
2.43.0


From e43ba6de587778ff24b8ac9140e4405f262d8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 62/95] fix: spaces are also removed from the arrays of strings

---
 demod/utils/parse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 14ef506..28fbca5 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -360,8 +360,8 @@ def remove_spaces(object: Any):
         return [remove_spaces(elem) for elem in object]
     elif isinstance(object, np.ndarray):
         # check if array of strings
-        if object.dtype.type is np.string_:
-            return remove_spaces(object.tolist)
+        if object.dtype.type is np.str_:
+            return remove_spaces(object.tolist())
         else:
             return object
     elif isinstance(object, (np.generic, float, int)):
-- 
2.43.0


From 20f44a0ecac2dd4c5562bfdd1802e50372274c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 63/95] fix: profiles that are a whole number of steps do not
 end with an additional step without load

---
 demod/datasets/tracebase/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 08b69e5..4df359f 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -198,7 +198,7 @@ class Tracebase(ApplianceLoader):
                 # Need to average over the load
                 sec_avg = int(self.step_size.total_seconds())
                 # Pad the array for resahping
-                n_pad = sec_avg - (len(load_second) % sec_avg)
+                n_pad = -len(load_second) % sec_avg
                 padded_load = np.append(load_second, np.zeros(n_pad))
                 # Compute the mean over the step size intervals
                 return padded_load.reshape((-1, sec_avg)).mean(axis=-1)
-- 
2.43.0


From eea714c7dfe17889f4f04f5edd2e821d1ca5b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 64/95] fix: the secondary states of the German TOU are used to
 replace the other activities

---
 demod/datasets/GermanTOU/loader.py | 8 +++++---
 demod/datasets/GermanTOU/parser.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 6f938be..2a0d9f3 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -265,7 +265,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         return_hh will also return the household id
         """
-        from .parser import primary_states, occ, get_mask_subgroup
+        from .parser import (
+            primary_states, secondary_states, occ, get_mask_subgroup
+        )
 
         # Sets some information on activity for the loading
         self._load_rawdata_info()
@@ -293,9 +295,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         if self.use_secondary_states:
             # Gets the secondary states
-            raw_sec_states = primary_states[mask_subgroup]
+            raw_sec_states = secondary_states[mask_subgroup]
             sec_states, sec_states_label = convert_states(
-                raw_sec_states, activity_dict
+                raw_sec_states, self.corresponding_dict
             )
             sec_states_label[sec_states_label=='-'] = 'other'
             # Find where to replace
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index c57ed18..2edd897 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1752,6 +1752,8 @@ def get_tpms_activity(
     mask_subgroup = get_mask_subgroup( **subgroup)
 
     raw_states = primary_states[mask_subgroup]
+    # The secondary states are never replaced by the away state
+    sec_activity_dict = activity_dict
 
     if add_away_state:
         raw_states[~occ[mask_subgroup]] = 0
@@ -1765,9 +1767,9 @@ def get_tpms_activity(
 
     if use_sec_states:
         # Gets the secondary states
-        raw_sec_states = primary_states[mask_subgroup]
+        raw_sec_states = secondary_states[mask_subgroup]
         sec_states, sec_states_label = convert_states(
-            raw_sec_states, activity_dict
+            raw_sec_states, sec_activity_dict
         )
         sec_states_label[sec_states_label=='-'] = 'other'
         # Find where to replace
-- 
2.43.0


From a3bf3ed438b34168d9a93f03c669bb1a451b9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 65/95] fix: names of activities of the German TOU are not
 truncated when others are replaced

---
 demod/datasets/GermanTOU/loader.py | 12 ++++++++----
 demod/datasets/GermanTOU/parser.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 2a0d9f3..ce027ec 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -291,7 +291,7 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         states, states_label = convert_states(raw_states, activity_dict)
         # Makes sure '-' are replaced by 'other'
-        states_label[states_label=='-'] = 'other'
+        states_label = np.where(states_label == '-', 'other', states_label)
 
         if self.use_secondary_states:
             # Gets the secondary states
@@ -299,15 +299,19 @@ class GTOU(LoaderTOU, PopulationLoader):
             sec_states, sec_states_label = convert_states(
                 raw_sec_states, self.corresponding_dict
             )
-            sec_states_label[sec_states_label=='-'] = 'other'
+            sec_states_label = np.where(
+                sec_states_label == '-', 'other', sec_states_label
+            )
             # Find where to replace
             mask_can_replace = (
                 (states_label[states] == 'other')
                 & (sec_states_label[sec_states] != 'other')
             )
             # Recontruct a states array with the secondary states
-            raw_act_array = states_label[states]
-            raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+            raw_act_array = np.where(
+                mask_can_replace,
+                sec_states_label[sec_states], states_label[states]
+            )
             # Finds back in states format
             states, states_label = convert_states(raw_act_array)
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 2edd897..ebbdf1a 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1763,7 +1763,7 @@ def get_tpms_activity(
 
     states, states_label = convert_states(raw_states, activity_dict)
 
-    states_label[states_label=='-'] = 'other'
+    states_label = np.where(states_label == '-', 'other', states_label)
 
     if use_sec_states:
         # Gets the secondary states
@@ -1771,15 +1771,19 @@ def get_tpms_activity(
         sec_states, sec_states_label = convert_states(
             raw_sec_states, sec_activity_dict
         )
-        sec_states_label[sec_states_label=='-'] = 'other'
+        sec_states_label = np.where(
+            sec_states_label == '-', 'other', sec_states_label
+        )
         # Find where to replace
         mask_can_replace = (
             (states_label[states] == 'other')
             & (sec_states_label[sec_states] != 'other')
         )
         # Recontruct a states array with the secondary states
-        raw_act_array = states_label[states]
-        raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+        raw_act_array = np.where(
+            mask_can_replace,
+            sec_states_label[sec_states], states_label[states]
+        )
         # Finds back in states format
         states, states_label = convert_states(raw_act_array)
 
-- 
2.43.0


From 9d0bf5f147f94cbcf8a5a491c698b1ca7f458614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 66/95] fix: each activity that is not in the diaries of the
 German TOU is labelled only once

---
 demod/datasets/GermanTOU/loader.py | 3 ++-
 demod/datasets/GermanTOU/parser.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index ce027ec..bd7dcb2 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -318,7 +318,8 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         # Adds missing activities from dict to states labels
         all_activities = np.array(list(activity_dict.values()))
-        missing_act = all_activities[~np.isin(all_activities, states_label)]
+        missing_act = np.unique(
+            all_activities[~np.isin(all_activities, states_label)])
         states_label = np.concatenate((states_label, missing_act))
 
         if sum((return_day, return_hh)) == 0:
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index ebbdf1a..23c229e 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1790,7 +1790,8 @@ def get_tpms_activity(
 
     # Adds missing activities from dict to states labels
     all_activities = np.array(list(activity_dict.values()))
-    missing_act = all_activities[~np.isin(all_activities, states_label)]
+    missing_act = np.unique(
+        all_activities[~np.isin(all_activities, states_label)])
     states_label = np.concatenate((states_label, missing_act))
 
     # get the pdf of the initial distribution and save it
-- 
2.43.0


From a3a3befc008662c973177ca10462bea9c94de139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 67/95] fix: daily starts of activities of the German TOU are
 pdfs over the days of the households

---
 demod/datasets/GermanTOU/loader.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index bd7dcb2..bb3a677 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -363,33 +363,36 @@ class GTOU(LoaderTOU, PopulationLoader):
         # Converts the states to transitions
         transitions_dict = states_to_transitions(states)
         # Find in which household and which recorded day the diary was
-        transitions_dict['hh_day'] = (
-            # Samll trick to get unique hh and day transitions (day_id = 1, 2 or 3)
-            hh_id[transitions_dict['persons']] * 4
-            + day_id[transitions_dict['persons']]
+        # Samll trick to get unique hh and day (day_id = 1, 2 or 3)
+        unique_hh_days, hh_days = np.unique(
+            hh_id * 4 + day_id, return_inverse=True
         )
+        n_hh_days = len(unique_hh_days)
+        transitions_dict['hh_day'] = hh_days[transitions_dict['persons']]
 
         daily_starts = {
-            act: np.bincount(  # Counts the number of persons starting i times
+            act: np.bincount(  # Counts the households starting i times
                     np.bincount(  # Counts how many time each household start act
                         transitions_dict['hh_day'][
                             transitions_dict['new_states'] == act
-                        ]
+                        ],
+                        minlength=n_hh_days
                     )
-                ).astype(float) / len(states)  # Convert to probs
+                ).astype(float) / n_hh_days  # Convert to probs
             for act in np.unique(transitions_dict['new_states'])
         }
         # Special case: active occupancy
         daily_starts['active_occupancy'] = np.bincount(
-            # Counts the number of persons starting i times
+            # Counts the households starting i times
             np.bincount(  # Counts how many time each household start act
                 transitions_dict['hh_day'][
                     # Active occupancy start when someone wakes up or comes back
                     # BUT Does not take into account sleeping away from home ...
                     (transitions_dict['new_states'] == 'sleeping')
                     | (transitions_dict['new_states'] == 'away')
-                ]
-        )).astype(float) / len(states)  # Convert to probs
+                ],
+                minlength=n_hh_days
+        )).astype(float) / n_hh_days  # Convert to probs
 
         return daily_starts
 
-- 
2.43.0


From 695acedb99f60b262e2613622ea100194bc7d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 68/95] fix: occupancy of the German TOU is also found between
 two travels

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 23c229e..a0ba40b 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1590,7 +1590,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
 
         #
-        mask_travelling = np.array(mask_was_travelling)
+        mask_was_travelling = np.array(mask_travelling)
         occupancies.append(np.array(current_occupancy))
 
     return np.asarray(occupancies).T
-- 
2.43.0


From 7263d237504764ed4b76e8d3ef16fec474ff7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 69/95] fix: unknown final location of the German TOU is not
 always at home

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index a0ba40b..045ab3a 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1587,7 +1587,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == 1)] = True
         current_occupancy[mask_after_last_travel & (final_occupancy == 2)] = False
         # keine angabe gets the last value probability
-        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
+        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)] >= 0
 
         #
         mask_was_travelling = np.array(mask_travelling)
-- 
2.43.0


From 766599f12bf219e3b1ce84972dc3bb3472810592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 70/95] fix: unspecified final location of the German TOU is
 the start location of the next day, not of the previous one

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 045ab3a..eb0f440 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -50,7 +50,7 @@ travelling          = np.array(df_akt['tc5'])
 initial_location    = np.array(df_akt['tc7'])
 final_location      = np.array(df_akt['tc8'])
 # 'trifft nicht zu' = -2 and means that the start location of the next day should be used
-final_location[final_location==-2] = np.roll(initial_location, 1)[final_location==-2]
+final_location[final_location==-2] = np.roll(initial_location, -1)[final_location==-2]
 
 # get a link between df_akt and df_pers
 df_akt_index_person = np.array([np.where(df_pers['id_persx'] == i)[0][0] for i in df_akt['id_persx']])
-- 
2.43.0


From 19e526dc85c016b3ed3541ddfe45af2887634c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 71/95] fix: several values of an attribute of the German TOU
 do not apply the default filters

---
 demod/datasets/GermanTOU/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index eb0f440..4f76598 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -136,14 +136,14 @@ def get_mask_subgroup(
 
     if weekday:
         if isinstance(weekday, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i) for i in weekday])
+            _mask &= np.isin(df_akt['wtagfei'], weekday)
         else:
             assert weekday <= 7 and weekday > 0, 'weekday value must be 1,2,3,4,5,6 or 7'
             _mask &= np.array(df_akt['wtagfei']) == weekday
 
     if n_residents:
         if isinstance(n_residents, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i) for i in n_residents])
+            _mask &= np.isin(np.array(df_hh['ha1x'][df_akt['id_hhx']-1]), n_residents)
         else:
             assert n_residents <= 6 and n_residents > 0, 'n_residents value must be 1,2,3,4,5 or 6'
             _mask &= np.array(df_hh['ha1x'][df_akt['id_hhx']-1]) == n_residents
@@ -162,7 +162,10 @@ def get_mask_subgroup(
         elif hh_work_type == 'other':
             _mask &= np.array(df_hh['anz_erw'][df_akt['id_hhx']-1]) == 7
         elif hh_work_type == '1_retired':
-            _mask &= get_mask_subgroup(n_residents=1, life_situation=8)
+            _mask &= (
+                (np.array(df_hh['ha1x'][df_akt['id_hhx']-1]) == 1)
+                & (np.array(df_pers['pb3'][df_akt_index_person]) == 8)
+            )
         elif hh_work_type == '2_retired':
             # get the households where there are 2 retired
             hh_2res = df_hh['id_hhx'][df_hh['ha1x'] == 2]
@@ -188,7 +191,7 @@ def get_mask_subgroup(
 
     if life_situation:
         if isinstance(life_situation, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i) for i in life_situation])
+            _mask &= np.isin(np.array(df_pers['pb3'][df_akt_index_person]), life_situation)
         elif isinstance(life_situation, dict):
             # individual life situation for all households memebers
             # get households with the corresponding life situations
-- 
2.43.0


From 0242990421df9a758f91b54b791410ccbc2681e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 72/95] fix: activity probabilities of the German TOU when
 nobody is away or sleeping

---
 demod/datasets/GermanTOU/loader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index bb3a677..a545f01 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -408,8 +408,7 @@ class GTOU(LoaderTOU, PopulationLoader):
         # adds the active occupancy
         activity_probabilities['active_occupancy'] = np.clip(
             1.
-            -  activity_probabilities['away']
-            -  activity_probabilities['sleeping'],
+            -  np.isin(states, ['away', 'sleeping']).mean(axis=0),
             0., 1.
         )
 
-- 
2.43.0


From d5676baf361d5e32634c9f238e2e4996d0cb1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 73/95] fix: data parsed for attributes given as tuples, such
 as intervals of age, can be saved

---
 demod/utils/parse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 28fbca5..5afec55 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -324,7 +324,7 @@ def make_jsonable(object: Any):
             make_jsonable(key): make_jsonable(item)
             for key, item in object.items()
         }
-    elif isinstance(object, (np.ndarray, list, pandas.Series)):
+    elif isinstance(object, (np.ndarray, list, tuple, pandas.Series)):
         return [make_jsonable(elem) for elem in object]
     elif isinstance(object, (str, int, float)):
         return object
@@ -388,7 +388,7 @@ def lists_to_numpy_array(object: Any):
             lists_to_numpy_array(key): lists_to_numpy_array(item)
             for key, item in object.items()
         }
-    elif isinstance(object, (np.ndarray, list, pandas.Series)):
+    elif isinstance(object, (np.ndarray, list, tuple, pandas.Series)):
         return np.asarray(object)
     elif object is None or isinstance(object, (str, int, float, np.generic)):
         return object
-- 
2.43.0


From 877d8abc64afdd8285a4498d8445c974e6f1ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 74/95] fix: the occupancy of the German TOU uses the ratings
 of being at home and not their indexes

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 4f76598..57d03d8 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1549,9 +1549,9 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         There is no guarantee on the validity of this, but results seems ok
     """
     # convert the states to their home indice rating
-    main_rating, _         = convert_states(primary_states, dic_home)
-    secondary_rating, _    = convert_states(secondary_states, dic_home)
-    home_ratings = main_rating + secondary_rating
+    main_states, main_rating = convert_states(primary_states, dic_home)
+    sec_states, sec_rating   = convert_states(secondary_states, dic_home)
+    home_ratings = main_rating[main_states] + sec_rating[sec_states]
 
     #initialize the occupancy
     current_occupancy= np.zeros_like(initial_occupancy, dtype=bool)
-- 
2.43.0


From 5fd9b18c07a76e91fb5906cc63b349821571a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 75/95] fix: DESTATIS keeps no third copy of a laptop from the
 row that includes the tablets

---
 demod/datasets/DESTATIS/loader.py             |   7 +++++++
 ...ftime__household_type_4__n_residents_3.npz | Bin 13874 -> 13600 bytes
 ...ftime__household_type_4__n_residents_4.npz | Bin 13874 -> 13600 bytes
 ...ftime__household_type_4__n_residents_5.npz | Bin 14396 -> 14122 bytes
 ...ltime__household_type_4__n_residents_3.npz | Bin 13874 -> 13600 bytes
 ...ltime__household_type_4__n_residents_4.npz | Bin 13874 -> 13600 bytes
 ...ltime__household_type_4__n_residents_5.npz | Bin 14396 -> 14122 bytes
 ...rship__household_type_3__n_residents_3.npz | Bin 13614 -> 13340 bytes
 ...rship__household_type_3__n_residents_4.npz | Bin 13614 -> 13340 bytes
 ...rship__household_type_4__n_residents_3.npz | Bin 13874 -> 13600 bytes
 ...rship__household_type_4__n_residents_4.npz | Bin 13874 -> 13600 bytes
 ...rship__household_type_4__n_residents_5.npz | Bin 14396 -> 14122 bytes
 .../ownership__n_residents_3.npz              | Bin 14122 -> 13848 bytes
 .../ownership__n_residents_4.npz              | Bin 14644 -> 14370 bytes
 .../ownership__n_residents_5.npz              | Bin 15698 -> 15150 bytes
 15 files changed, 7 insertions(+)

diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index ac15c95..93991a0 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -194,6 +194,13 @@ class Destatis(ApplianceLoader, PopulationLoader):
             prob_0 = ownership_dic.pop(app_type + '_1')
             ownership_dic[app_type] = prob_0
 
+            # a type given again has no copies left from the previous time
+            copy = len(probs) + 1
+            while ownership_dic.pop(
+                app_type + "_" + str(copy), None
+            ) is not None:
+                copy += 1
+
         return ownership_dic
 
     def _get_column_appliance_subgroup(
diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_3.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_3.npz
index d4f80b7b4debf24fb0c428c6bb5bdb992f442830..6747c3a815dee130ff89b111606c0296e468353d 100644
GIT binary patch
literal 13600
zcmdT~X>3(R6uz$uLMhNfS&D#<MGCTS0kI0ih#)BxL4pd@x3&-7=6#RS7J&k4!KFrt
zK?11|kS(%=O_U{spdlnQhzKG}!zLn&AP}rTbk2P}xA&YkpoxEmn~<gr-<<j8J9B2v
zIg>jgF{zst``T)I_uZfJcg<H<%g~~QdA+*_!^Ji&O`BKqzwqaRk+0<BzG~A7wdq-I
zPsF8X4YX%vdk187wP$%ldQ^7=^Fq4Y1Aiat@JBr2?~wvW*du=L)VZsDhW&qiDRcH5
zSoXrUi-U3rgRK+2eq>O`V4&*!x3_uc^62f?*!-9Ed~Y_+KQ*R+GgPFm3N=olQ57Z(
zso0M!QcM=ADlzO#NyhpY&oCuMZM^maa!3~(+=cEuS11?>`912&F?8F_`$vktXH+_8
zRt!ffjVKjWHA(DJ*6esC-`zQtD|aK2rh<smKh>i<iq+TUWcAF+JENPKE(b>U%SSp*
z;_0ZWO&{Ys!N{z0&gqS0G6b1?N5B`%S6`Z+EANas_XTH@T|KEivS}R0Mpb28Y2%;X
zvi~eortQ64lS@Ov#T5#Kr$#-xx?wDKs$BoCJo>1rhnz=J$E11aTSSk(%JP6<d}le+
zW9-QC5b}V#3i_3*Ean<F#@`u>X`xv&kOjmoudm1hC%x)>WUTv{s!<<)#n_Cyu=Q7D
z196M8QB|4d!n?+tJH@!1a3-!qE^ylW9pPvw{0K<1WD$J)Lb+wY-6Kc`PJ2d2Rc)dR
zS|p8Yc$H~0`D}R)BxB?$4yWG}Rrf@>^46e!lfK~><8=GT!^pzOQw$cWD)E}J<N2M~
zSNZyR<j_F4Rao~0l|I}Dzj5JEyAxkChsvz?+fk%Zzm|roT8Mm6B#oCD3F}SEAW;ws
zDx59KuP1U6kJugS>gG;ci8~oeD0{(L+Oo%~4t4m6VO63Y><J*D>W+{*(@zPT+Mo_l
zMTy-<3?k|t7JrF^aPhuFY;*5evUDI)fhvlHimIB-{`C3x{TCk=rQnVj2swSCsHM0l
za{qew+TAx%lsGQR#;ohBz8leh{&D7D8KcunkV_iVMO6>$YGj5yr?Lhv*!7WsLytb1
z4t8>beGQ7jsVM7TNk0}{>e!11utm4q6(JP}U=~$Wb+43T%frv6aQB*7mTDHXAo=j>
zK6k#t_pH^6_t`h<Tn_6df#f5`LRBT?;dfruw-eB%Ao=j>9#4tNmBsy{XL$4e3Kn^-
zRTH?k*U(T^3wgPu|IY4(s0AD!ZeOHenj=!6vK)JiCTKa6Blz~0gOCXnNNbs>s>mOQ
zbDU}8d68sH^F7JP0|IWq=h8#d9EA#pD!ZsDE)0Ic1etO#wG4^CHaCf=sz>1B-8DB3
zUt%<R^~^JO2$XtZcZeQUz~K@<6c(jaG<6Dhf6mxsu3gv?MS-g?WuvMxu_6{f(H$S3
zzJ**M0K4^KmBW^{_J-K-VJ67b&8r6>2}sus5~}K86yd6QtI)gtN;XmepYr%UuBh&F
z<rRdS>gMaQQ>22)@!1DeW_t?GLn{|mRWY7#Tzc4}APB$tjuN#6iCq>o_9|%pOSkKz
zbHOIBp`of4JBFtwbSYcOylT_=4Reu1tX&uldLkl~Qv3{AA@ZnW%QrGM&05VGf^1;F
zdwo_mswxv}NgWhiYzf^G>GMT+o(TWyq7RCnr8f8lA2V_kJQ+k(9fI0xpkNg^2A=65
zCY5032wTFE`Dl+L;b|NqQwVZc0wQG=;W--O(g`j#QHy_^#?8VLFoZWE@M9D%vklL#
z5Zsi2mnLcQM_AlGJaxh$nvfwv$#Fx-<^a!&aDWUlK(-J~_SlF|0iN{W2#v`IDUb0H
zWHW$#9q|nb{;0sy2Ls&pgRvELEm)(V#If*PL~hqx&w@328ypKyG!RSuw7YOVoU@EA
zJc~diUGG~0NuL$OZU)>oB-J<qUGKg1`3SNZK>Hu@)a%Lx71lkMPXSu)I0W^&i4Ee0
zkj(+w+&BPTzo&!?L@iBk&K_FJh@|`cx`~uogmy0C#2n49)V4+JThiR+CZUCjP_e@1
zS8AJ{W<q5)t=>t2gGH#Z^aZ%Z2LqFZ;xVAqr=dM3pXvb<D0OJ7MdAJCS8Dr62y9rC
zF@!c0+N06)W#QbGPLAA<p!I`r8a-PJ&$Pg0wyjg9``{M=j&Hv3MTQm!8mIV8%@|&~
z*3ec!yzm3_E49sRPVxUXd%AMNT4>f1vV7&Be2&H`yh$d7OXm(HYlPE<KTYAXsY96<
z!F2PkYAIB+6pi_kTP35LH}E(jWfq|viWceS?bQl!mf|QkX^ob25B^yTmDz-{AKIky
z?rJSA2CN9k%|fXS(ezL&Yhy*rEJJw<u~eK<PYB1N#V&3bN=gW(OVz?|0n6+{83&>C
zXsQxWS_YAOC6rEZ1iGcxwdEtoW&q_1#8a_~+lf`HEnaZeP$EDe4PVc-uK~*JL0XP5
zI$v7{jU={mzK{wdp8Ci^hL>5lUUsQe3!j9GlO-ADd?DpS!*ro0bu^(en~-K9kZRmM
n3nH#HO_6hk)CNbOYjz`UgxCy{joW`;t*@3N!o{vm5GnrwRum%g

literal 13874
zcmdT~X>3$g6n@hdgi@e|LMdXM0#X_(s||=XNQ}smLK~2v0(F)*?Z9l#3`40b1E?*E
zjY<p>NQHn1M3w+W6oL&wB_uY82qGY|r6P;0Ar(lx_YL>WIj5Im;-AZF8km9ap8LJ;
z+~q7qV-l0nwb+xb?cH~8dKLS?e_LtkS~yZNu&*yL%c7+k-|_#)|BXLO#=cTm^r}UR
zXm8~>^^hZ&Gt`<>;2M&XXU%c>gW;gfSK<#kb^iSbn<u2R??Yv_fX+Vm&dsyVvHq_o
zc|qNQRWI#m7*>QB)J}1E1cR0a16Ak0GwYp;#XGN%`LF8#-h46tl$Zi`f4RCU#C$>1
zunLoh*X$Q8l1&z>DlzhOMf#?fPZK4^ZMpKZ;E={RI3vyyhu;_SdvtZ>7_sBVy~E`{
z5h}TvHKPQT_Lz#Qnk4qA?0l@AuI|G6wR;4SPK=1%GeZyBW~r~siN?9pc89kST@DoI
zmkK%^o6=ELn?c5NoRHaQUocRRNoQnAZC<ypRDEfFtG_+|?B|qCLF3dOf=!1eY*bao
zkvi$w?fcIVWwP%UnOxd2E)KspFe9u7)!oKor^?m;%43kKddPVs^-8J|zJ>I7Mp+(w
zGrql==rLhzwO{bycNO7Rs<K#U+!+5REN1%W%@Hj4zU6Y4>-?lweT__TK6h%|2VW63
z6VKQFDcJCR3$syGnGEJ#<IkQXT#nll*9tEDwD;HoVSnHekY>d){?H3$esS)&=IAK9
ziybMy&}%@eKZrWphuk?V=<v%6QAbr*3oq%CG_l=fLT1{T>VATZ5q8<^9zCq?0eNZm
zu>7gt(0hKGb?hO*!U($z7OE=onz4b=E55t_^>czlTjo}QpxdYPUFC&0&L8Z4{A=P+
znXUgiB51UU(@<3l7XGpr_#z<zFOCL@GQUsZ;8%Xzl9Nz&vz3#$ysdXFawkIxW$%kC
zyY@TTvn4$Mp%Sh6n&2c<T@i8}eofe#C3N6Pq1g4xAfoPJ@ehk{m+w1B7Wb|dD~Ady
zJShaIsH(~QPhNcA)6m>5#jm_xzunDpbc%~2_pf)a+<8-o(u9k$d)C!2z8^Dq(J|s+
z>BVUkf=epVMO6>WGXh;2BEpS}ulkVJ77Ra{4t8R*b-fUUQc>2wl78V42;IPz-RfR0
zsPGL8sG_QSB_CZKcs`lB*WAh!Ge5_J4_DCbELHfPwQl)7>y{vu11=ICe8gC&s)T&|
ztvdDHWZ_ag_;3Yvy+Y+g>3&uMy>V|1*?D0Sh~L}q(@<3ldG=@U?!FPB1wTHV?oioG
zTc}KBIqHm>ZZ(m^_x6{=1QVX`jWbbIk?V&F?WvP!l4N{FT?@g3Z@6B!Bj}%LizvKR
zSy_s7sqbSV$n?7@m4XOg<|YwU_3$>_S%2-&1wvy${}OYB@XR$|9jxT$wK>=y3X2kD
zHLA#-&j_2$4NJQUQTWvtvr$!<SQ3k#=(dl3zbUxz4cHl+rSi6=ZMeo3e1HftW81nR
zf&>rO4HByAU?kxhY30+k=~989z<o;h=#FsE?I<bp+trQNW2Z<Bk>k_Fr_5>_KMx@n
zRaG&%Q7$ys<HWb$Qd@=Eg2XP1w8?4F=v!@sbMZxfpN6Vh>>8Dl(5G@O@v5!oHZK$;
zV%5*EPY<zBO7Syf4U40WuHHh}bnZ59xM0KAyUPvPsH#k?B=sZXVoBf{#2(s>DV$K#
zq89#l(VIz8xC0WR_8KVu7AOXH9YV|kW{X)edk`rScltr($OM6uS;XCS5SNmuHSM*d
zW^qRwgdfFlnQh!f2Ei+nG<i=MwU0Zu;1K>6O@@%o0e4Hm0Sa1b(%vaL1>B(oM@W8*
zjv$)>jMv-6;mo^^Fg)&mptc{3t!V|YMnZ{VaraByaMa>z4X{RSgJN;V3B>kIj$>tP
zahC@~-egGJB@w$BP}?x5?hqe<y|2A(=m@eI;BJQa08vYIibkvF@+sgB0yxB!woQkS
zzI|M^hePBsCy><e>1)81ayURE8z2no<`jvm(-8S>dx4a_I9w5ixP_@2t`Ad_xC#rQ
zqti^N%qDbjrmp!!E$x~1ptL|OJ{Wk|1WJX$6+Y7-bFXC`g+=L_fEL*TGM}hrDmzNd
z8XKJ`u4I`gW-q&waOY-t;_4BEU&8Q*y<NPNYCCI^`VE~su986G^D_uu`mS+h0^$q1
zVEn^o&%DTdqLz$I4Q8R`ix_9%O*DJ)X9!$6cbxTx@Qq!Ob=lN$rWt}Gk2BFh-kH8~
z=w)ofG@q!YpqoI-EaHr+31e)vCpZq|SE)(3;o>#;LmVozi8F`L=He`Nw;*{$Y8Gef
zAbR4H5G}KeGh`5(Wo3?q^JUa9&PqXW0|d+L;!F^PZpzk3CPnU*IQs%enBAR@Ae#Zs
zctHHf9_+2f^B<Ho&N4t?+n)D<GJ80(hp>YT24iD6UmQ(C{EDYAUS=KMm)Xf{KI{(D
zi{HIKJWKiFsL@2S1@Ux_36<Hzks1VEXFwe3$T{Qa2#!$Kn~o5hK?`;l)wF!}^C7#V
JEY9Vh{sr0^<XZp$

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_4.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_4.npz
index 0fe92a6131fc6d8b7902e7a18bc24579df8b8649..263c2cab078326e5cbfe7b38cae817c0a4c7063e 100644
GIT binary patch
literal 13600
zcmdT~X>3$g6n@jvQrfb&Sju8ck)rI2dl8pVFa#(~(16fkIx}sD%*LB(p+(75K-{n(
zA^eg;(3F58A`oOLT8I$@F<3!CEQ@RcQUU}al6udZp6NShZsmu6E-!(GhVP#H-S6Dx
zEP3N&+YHjeU#7MtdG@}h<}X1@(Sl{x;e);Ya*NhUd%O96;m_q0r%cG3YSGHHdD#wU
zz^-RMlaZZM^i=l1jO-$x9@K4Kt50`0;rF>VcfcurA1JZ;o#Nm9A03$SM#lg85_7lR
zxK}^-(&#+GVC#$`H!_Gf7^ph`?Y$RWp1l1pHvct4->t;?Cx;a%^vzXQg=VMFs0z*-
zzb!x(i4hj6DiL3~;-&Z8XPFXJ)~o5rp|jxND05itK5xM1cB(7KLF21uR1Tj^8iiCk
zQYxxy;_b5F>jP`}?oORDCV)gz1(8B`sZ+O=tFOyKL1xUhFPSc{b+;g!rmoR+RMiH~
zt=@}HFfyYWZ@q<VQUsY|o5$rXR$rPUeNNn&KkF1@lb2b!3fXjtVxy`uoAi=pS6}BR
zS>``^S;(b>;9~cA{G~ysuI@1wzEv8TCav-qp{gEo9$#1rJW@SIs>)+i&uNZl8xC_l
zmX9TG74$1rS;P)l-0jyNt}zxH^v~l^4LG-oTyvdp)2qHmo@kh~WTm%`u{rXIr2yH$
zxkcHitxN;sGArMji(KHgcia3ypZ@`n=6iA1-?+!Gl=KxlZX+GI?HL_awaJ3(an}{5
z&9wY=2at>rr`QVJ&Y-$CO3s$=%4(~RGZs~wzdD61j5x($p{f$=z8(MMJ1<;h9EN|G
z)B`!R7jEU(U0$UxcX*<Ve!P~^`19;9-yn^o78<H*amWa?_^vR&Pz(|!KCi;jqWpOx
zC-H#2vE(F_ePG>RiFU9jz@1dx5poKt8|sJRwuUT9_&s6}QTMW_txg|uvhPuLLXBBi
zFa)VU7R5wGRZaHZ>OZ}z?kXc<-W%{n^!N&0BB`agD02U5ntJIc6eWs_vS-%x9WN)x
z47l(gx^!Z?sOn*IRm>g+yFTEt>A?rn!K$q%_M?MwD$4rTF5>_@!~83ye$NV|0tc8$
z6;<8KYHSo9vIj1d#vl<0K8kdgqgdg0R+_j?;wyjVa!l@Afh-{S2(wUCiGh$ixy_ZR
zPP`aNEkf{7q&uAzDrXk+L<BYS+$JW)-PuihQ3`msH`7p6i)%Fy37%#omK3gDk0jvw
zaJT{`b8LYUmF3XZUq3RTa4BPQ=6L-bWC9867AC4HQdI{pEndtW@#;=eck{UHx^IrH
zOyQ#{bgAF4giqgRg4E>R+=GI^HjfZdRgWuBp}Ne=hmA9LwnZ9{>V@4QYE&MZUHnj3
zl%@MJL}h0U6J^iTgCx~U*{G_FQER`z?~&5Ar7xl~Z~!~>a+Qy*P|C)!rz?U?kc~Z;
z)glQ9*9{V?>X6pvl@5b8pJNn;4Yigb1qi2{Zl^t{yX@8yU!l73dgy5*yUV!jtD86z
zxxjsB=Ax=9LXwZJ)$n^{@78HHWCF);v8_UFLBiL19uuU_zv>U90h_#;hN@cJ6=jd$
z@^y@aJ+yx^k_eXzgI;Gqgi?y%A>pk1M#d(!D*rsP36~4aY*ba|WB;hcV{3mDTr4qz
zVrly#v?s!!gm7lU_&a2QAK1*uQP47osCa^^Gf=P!90P57h)E`xH-#->DblpZk<c24
z$V7r17lTNdMQBGuTxWtyj@6=@)3{k^0Yi940zXFKGTYF0h2T^IUfo8MH(_!6(CUOk
zbR|Rh;-ZF-%>mkraDWstK#mYi)@;P504+T@LKiYZVp~3fYzC0jLVO2;KPvFFVSw9i
z9lI*Qgf$XM91HCta=S(COjx6~!Lga5MFX+aPX`O<!#T^?LR$nP>3ZK3NZM8qei?Av
z(29T~(DklM;v>jr0OfzgQ?L6#P+`?``4ph!jzdtdo6$aM2-zH<%#8!k^?OXXK+sh5
z=Io)gj7YlA8zV@WMJVSYPRud#g)Cddz9q$7ZW2nU2o)<F`9hX?ogz?~O|y4W;Pc|B
zG1UdQ#nypwLh&$A>eH<Q4@7`+hc<0O;r)>>WT_GY8x~~@p$vsfLr>3q;oPQ5j@*x+
z^n-AEdiD~YX@bjao4L|`a9)6;i!XeUp~Qj4DSmS|hQIGx3qOc_A<O)SDE@x4rz<xu
zO*5yE<tqp2bDTVdckNE$(z!#*8sT)|f2VNS)FDlbV7hs0(uHcKq%mLe6p@-mB;CB8
z9*C4#gmft4=;j^P6L6;FC^rcyNQBZo_;(9bW)sqW2&D4v?j;@uED6ZXLaGhX^io^g
z+l-c3hV&L<sW_7!7LG-eUEDCFln_jpDlNkVmf3|g4npbG)F7ZV4I=kSNS)vabW44f
z$w!dQ0MZqRr(%`&5v$gcyx^=MMSwthd_9-d43yb}upD7@zLvfk32fzjArwYD^^rpi
zFS8EeC!(oTD<6S}lPMVGd?DmRC|#(6ei5k5CWKiCq#9>s!-;DSQ{<c>w80VRnq7|?
XAv}XP<MlsM8>vkY$Hngca8mvY=Qkw;

literal 13874
zcmdT~du)wo82?UDv~_P?%Bsbbs5`q>WLp#yRuUFQkJEF$(;hiD-#INhlT(*nS((VP
zWK&`bVe8BgLs~1@#%#noHYV;X!`Kk1OzeHX)Au{i^YpD|**~vOq|T||`@FyJ_q><q
zk~^VU^JFdhWN6!y<{o&Hec*pvX~|l+*gkBKKe)iAwKu=x|BwHUKdUEAotQh_rWI?i
zX1er{)5v@#Ju}<=RAyFsraNGS4Ts+zFkCwSKF8q=>FoPZp(CiX&;9ymrN5T`zn+Ag
zowx4S%)c@^7ctl|%k32m;!Oss&VN_hva6GK{YmD(e#qOUV*W`{1@Z&))m0(t3z~*i
z&~N>=M6gJ(Sg5K*eCe7O-tk@_N|f2JrwR@o7zbCe%kB*LLjkX@t{jKWr-o2DayoI8
zpwbRgQB@Ov$0hp?t*5IyW$KuaAd<p}<a>*B!?8epU6wL3V|IQ?ba|zl?SY`vsUaOz
zwc-0#+OkuG%&41pUKeDN8JPly&*LvpUz%gRPSq`%bC$5l%_v<f*mP{bMpb3D8ilK_
zFQhwJ#y`2e1(&vri!<O07KL>~-EAy-s@x=+G|FSRs(Q$Id|}J;N%a_^Dvzx_X1Ja`
zbA;-#dMvuD2)|O5MY92KbpG|n8-&Fc<MS3m4Zd%=J@a*b(yP8ko;dT;iue81gw3%}
zY<YqW-?uOuwUs$TxXhVi&k<bsY43Fe!-3!<AkFvetiN@i9w~*3dyaS*9c6d1MWaXN
z?H+%TsFS*8_gz7UUtWkhs=8Wle%kN7M##*Vvgwc@V}@Ohe6Jo>_khga{#|ip`ANc}
zY};371q(CmGFhmq#HMd1Jo(mhmkEbq?<IB@9NI9q3K|~2(svbp;~G7(lF<0$!Y^M7
z8i_F)s%r6r88^~Z0WVx8iNb(i;ow((+me$|cC-C2B$T}`Hcg^6UlZJ&R9z8r3MpG^
zhKOa&lS0w!l}SY1!=kc0b@1sv$H@*gW@+AFL4_xU02Ng=*?*_s%(Ck1ga};V{L1SK
z<a=0-PH|D>{`Fw`m7jzt4Y(+~XU*I_J}GWM?L%~FPjpe$!{n+!596yo<Z~F|N7KQ|
z?WYb32cuM!^{>6=26mqKS8`3&8bO6`U_cdB-OFw+6q<nu)fUAGB0TtT8y;7I!uPDM
z>@<ll{h7)!xkHIy!Gn(|3ssfK;;Ep!REhG0%T}h82On-j*Gp7Rl;*MsYWAhAM2dTJ
zAM6)W@Oyhb4OO+cv5`lD=Lm@v`Rg_d68!jZc|wKr9HBy$<<K_&b!=k(O2Xv)$(lOB
zgy-L5OjK2*teW4nXl;7<%X?56(dTg*fq9N%g}186mA*q;eY%_ovN7j&l@Nq4bBl<o
zdR*fLx2v=odUN)kmVyS)T=UhzN^U-fll@Rwl$8h4S)pn@5v6MSVU)SXY*baoY#pej
z=Sb0pqUVJ&d;@kF3sl~=BFPnF&y|FUAQe4URSFV3TsKLmszcZ2)7lQ)c8O3JI>cTq
zDDZGf_v+5D;c?mv1NrL4>yf9;>@MMQpnB45!G)iPkc+CSFiAeTv5}r5`*+N62qt{{
zEpU{mElBiO&n1FX2iIN{H25N~r=hAA_gL8@ym}KM;fx%dEJ#GFpJBfqVxg4cXGk>b
zUP0KTluh|vu!&YbAsbbd`8YT#;lzfcjEgOfYY=^CH)j3U>_^1L|1EkmDGGN$LR7Vh
z;%|XsaMvNkEM~TtC94OKB5|i5M2?FSNSQ_4T?cVV&9sKScGN8HXoK(*7%sDoyT~AT
zU2{#|Q%3FM&Mi1ZphbfrWOKmXQgDFmcum?nMW=u}l;8*nE$Ild8Nj4g+ZddA*Kvl&
z{SVZ3<Jh&W0M<+>Q7rC$i5ZUA+^qrDtZh(i2I@G0*g**~tc)%0@_@+O42ioWqBjF-
z8+TT~5vmjE2(lUAZU%^dH%X(_bNLi-2LT*nR-1-HNZ&rL+QT8Tm=j29`1Cd4N;w>$
zjtvk7b#scu)oF;VYA2Ag7l$jt5VxeghU>%BB(B0j=!+dJsLUpGaHg*HL~QLkGGMF@
zN-Z`Htg(PnVHyX1&`DU7uL;oI#}<(FL~MEND6wj6bfUPDWue&e&qxvO{1BeFdIaIu
zFubX^%ifChL~J`cYm)j6ojb0QSa3G?(k=ww<hy1rWIYkv#I6|M)a;oTSx>~)rJDw`
z(DFr$Gw>FgP5wNAOXrTW-Vpv-DzYw{I?gmhaB+7gI><ZISDuWryAYY(Lm*`qaYhy5
zw8uCO<X5RloW+FDZ(~rIO`JJ|z~yP|Zb9;h)GW@{LG-kq5G}KeGh`5(md+dt=gX*J
zoRxy$S_qce#hD-ot;o=%c_C^XXJ6n53wzNKWHZ1S4~QSvo4vJI{(~CESq2Df)2ALN
zvxg&l2s_GPFgBL2LL5y){D+TYyv#a|U?JMwm*2fWJWKiFs1ZU3W?E30O&qB~;NJ}B
l_P|I-&KXBXaD;vR=m^mnv|x8pO&iJntYmkT<^B1me*uW?=Bxk!

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_5.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_1_fulltime_1_halftime__household_type_4__n_residents_5.npz
index e8b4976052ddbfe0e616c08f07e243ba5fce40da..6e2abaf5f7127da8ad3727cbb784c7a05e23590f 100644
GIT binary patch
literal 14122
zcmdT~Yiv|S6ut`-p%f@k9<2qofVRaJs~|K8ic|z7K&4cJDVBZQZP#pf*WG1-5=p7Z
zLoAINz@+iPJAfJ>jS3oQ3KFBDjS@*s5ac0^$SXo10l_(Udv5PJot7W|ncjpnZTRNQ
zH{UsDX3m`a8J)XiYq2j)8}U+&^Ir4UO-s@u(c;HP`GZSrTB5eP`G4Wh_huE&%%5k|
zqT14Qw;pzd(#PA=CwOwxv+U`fKqwM&_=^J}w+?@Q&fyE|;_u;7M^G2PXJlsCU$_6S
zFMjis&;R-Nc+=DQgu(P}O*zP*tHD6k`KP|@e)81pOKkp|a^6~w^G}E=;0!EQSA}M$
z(5MQR*E<T4MZC#ERVAwHZ)6lzpJ7T28Q55f9Qp_j?x?%i74U}xK3!co%9B2u`bYV3
zM#Y`_HZr-_n^I9#le9gd(swTL=nf>OJdI5H3nEV6LOtYIqP{M<r)F1e^zUQ392&VH
z4e9i2O-EI2Hsr1KUAW!I$xN=EgJhBfnG#2t*I%N(H2Xfdvg7ECvy9Dvy5|d!P2W~*
zR8{7{^n^~2tm2t0?N0u1<kCxUaRthP3nO|+-82^4Rjx8k+T<}>RXyZ9F8=8`FV$m=
zsyuSmJhR|@!*5KF<Xsz6kO!Pq(63ZwVH~)st}qq{#@q9d1>`M{cd-sTz3MTNwQ4})
zk2eo9HY>)hPCz!0w<sG`mHEUt44-0L&UkIzkqhkhK1VPT2zCHzj{N}NIYwvy7Y8RG
z9oX#|9aXi-EQ0g#-;7M*ri130(zvHMoIX9G?v66ISGL&bxrg1p`$kWc#JHyzEL2sZ
z_S@*ek5Vo$B{Gf_Ek+JKg<AzfUcb_tdlzF@tYb75G@h<O8a-NQsH#Qme!`=|dO|Ts
zlm`3?-xlS^6FG?vcE*yEQ1*Z&S7Ps&%)ulk40n1$)tIO=ZXdt1z_u#U9ReFjs7gVu
zLsf3-7}NnuL9s)XK}6jh?|tblefx%KQKSN;APW^$H5t_9MX`DFLaEiQ;GkO;aC${$
zPH|D>{?#s*4wiVsD_(6v2WzE^vibMw?VZ<to>|{c>PlojrfRg@-@_n-h07eFNXHD8
zsk@e$H(X9d*;r|~S#Wk+4L>d>Uz&6gV+E42MHN-u>)f`QBlbO)S)k}cOTI@Ua2xc5
zyzUZ(557h4^j39(v9P9LxDCcwsH%iK(5GIQw;z>&+n^_;>*Xq!dK)&uJ8mtLV(-L~
z>qrAGQq43})go3S;RT<j$~p6q1Z*E}Z@6@kBV4Mo9NMENM|54jp2@MIx^Ofyffs}p
zCaNm(m2ns0d1~C(qsZyE%<BpT7CE8{r>eRkZ(e-i%XLhU%cGB7LqQ<SO(Lr5u{Ag`
z{=^pko;$N(@-U<UwReaP@n~4)aETuZi*gH2i_Sev6yKEB79txs`cgKkDg$-V9Y^`A
zNHjZZH*$dl><%qaIc?P$f>ba;R{m8~izJ}*V31H%ht=?$Q^2dcYZE7KM+)Fmx=(jS
zLS9#KX~3y&?IFi#ci7D2$onR48FGRB(8@(sRho>8A>T)=U0RTSOC05D3lcjlYOGCb
zOXFiJQ4k37W*Vw$5i10J%Dn32FSn|ZMC|=G;@89CDy8@y@+>sb?A*)PB#ymt7}-F)
zd%RXQsw#8GNWTq&i>*_3XWCB+{i5)%8~UL5Sz&`;u)CC_pobGtT?wk*K*1_-3`8Vi
z5(uVJ*b<h^E=rDsUPVO46Xdi`h?H4`{y@a_A-IIjTI+5>ZWem-5Z;@>Pf)nbHuS+E
zxIY1ZEMC{7U2)t#^q%1m{m2l3xK=~R=5R>#d*J{{WPk}mG+Fl-p91t);Rt=n2=Nc_
z5o9xf`#R!#5&W+LPdhlc?Y6NWcC%oOf)d9<|Bl?Qr@IAf6gxQ<dS(zy{dAOYKAf|R
zE%d1%lCJl4fuwyNv6BI}4ZR^a0$uO=9()AZ44@wa@zm?q2`a3eK|TfOfxscC*Uj(Q
zY6#gJpzi<&pzAkMxIo0xg}~XvTR$RcoL@DOGK=uOjyN$#^Q*Acint}O?c5~1X(Lpu
zu=!QkmL{4|nN6#AQs5+!YAkOY++y3nIH7n9DD~;Kf!~=xsYAmXrJQ565IAPhc(H76
zsv>O6ufjH0xVHh6Ee*WIp*@;*2MV9GJZH%r5Z=EKPSfrg3YXcoE)or(-2*hq3sifQ
zDSpvFhL?&2Z!0)?iq9Lw@KUX;^A`?ieigRf$rOJ-_H^YN1=>=(majb2?Q!xHzBPry
zrQD%bj&Lem;6VbHO&#jf2&P#hH&r-|rCQydWHf8sHIXulP=`f}G;7ok28))eEH??Y
zPlVFoUo*sn%4|Zt5rI_RSwqE%gjFB8S*Y<Ln(n59>{hhQGSt-&OT{@Yux4>e?if(Z
zLNHybooN=Z%r4ZA5K8yN;4qEVU*yK2W`iTpka}u3A3-()sFNU`iWNUXtXfOegfBPL
zCJ;!|-%kjX*@Joj!svY8eMloWYB^uHgCm~$$SV(1yv(}wluf0|NQV=f<rd8O!d(*$
z(}lXy0+rc>`yB$Q#<dxc@U8bFIcK<2;RtliDl_>Au^Ge}*N(B;Sna4t7qdn}ru+}e
CREDAe

literal 14396
zcmdT~Yiv|S6u!&5rG*0J(b~cm(6&&p3JO6G1$hT4)T)?b+3wzL*KBv|?y{5`$?`^_
zG{gX!MidYbd{IJF(6miKVxpKviKHfg@@f@%MF<%1F>`O{?m4H^662rYHVy2;H)p>4
zoilUh%*mP6u~VXEK55#}=c)?VvJd>Xo0h1B!UYeH^p!5LX$i)6{QvQP<IfvU=grQU
zZ_~osE9ovh=nSNfv!{=Dk4?|Ar@Q@uP{83U@CRHv|9+~&8`RnN!D2_L&OT>kX4zl0
z|F0)@`;<@r`0IG{#2mz6#?Iz!!Jv!5K-KxDyx@B5^qfm%{@b!&Unb@sXDU$WFH=_q
z(-$-it8jUfBTul1wOFXCL}mSrjQq+oM2Ug@8<z_Xy%+~q*j3>4`+|P2uC5&Ai62k<
zrTjRd;!0WnkD$^MQ&Cluw0(i%jhAS2`;(F<3L<?OkwWhxJ>XcPzAj@=&#Bnr+fQ_<
z9kw}5(CO2fj;h*hp1jW6bi0v~nN&GXkV#}@iX0^#Uy=IK?0@^p?xVBL5;pznX66bu
zy<4$SRhdIG;yMgpLszo2J2^uHmmZ9Z(_d1$D5M9}UB=8^<tovnO&+6E)kDtX;sy74
zsUD+M<&pi`lMBx`{6zFf+PfuL@Zh<M@GDhW7ztO!6~f}sIQwM5g0EX{Pnphldevhj
zYfZn#?`|F@Y*vn08z<QCbqljmRhbWsWcW1Ua>iqe5nT9g?{$=h{H6DRG{?T>&pATp
zPRH8X_UI_PicRI){hnV5or9m%j2Cox@<P;6)zvcddAk2QA(OYQX1yR|9J?HaUOlAl
z2Kh{n5iD<^0dxEB74d?FaqKc!sH(()ufsL(BsUQyGLGbz2@dhhtx5wPpVGNXCu5VZ
zBQzE^{#+$!bdS<dRSWaDMWX^HTn33^zfa-AuRPn5lTdcC{Vybx%@^e)sz+z0qL?t;
z=@C_9qRu!>og#q^-6@6#HYcGf1-T9tV^c;89e8ES%n=PD>h5@NN{bG=Hct-=D!j4<
zsHm#RfKJb{&70PJp<D61y~JPWVTDG;MUnegyIk(Eg*UkJrDow^t#na#{k?j7&$aJo
z*SE8DB@iD|HCpcOVSEJ(mN){Tdox(3?Okde*eMldW2NC{?%ADHG+j)(^u$FGD||5q
zs;KH-=XO>dvG2P~0!1HG^o=0GPlN7&$5o_o;+xNJ5-Uy+7H}Enr$Lj2s!GTMeOlA}
zgF*>@8gvJAy<FwWb;CA(Eq#DUQ9YsPx}d=iQY|!8)xxZi(E3&L@_7pc3BG-}Ji+3{
zj$pCMa%c~p9NJ~sCL+hm%Dhp63BM4DGEr5LFO0JYU8lx;ITB^RB_3zMzt|C0c&Vxz
zxa#8E&o>Z3E{{5PO$frn+#;f?9`BV-h&{1`UQf@?oitd`;8zJeI@ld(iNneMP*{{(
zJX<W>M?~>Xd3ljw!&6_(Mpb2aU3B+RddU+Wk@bP#!WUpyV2R4hR-GY8gb1?wxBLTw
z1TQ@pBvjR5Ex(=0rPbYa2@`e+3f!l3ukH*5JkEk*f1$dyhis#JV>^*!@>iXg3NCy<
zgj`frrP(+b(tQLro$=+j$WgAgAZD^iyUunrKD1g0!h^hphN@bag`kg!SDpOfR;3_e
zUPp&~dXOEZ6yHOhGA;?L37dpRZyXkEc)Ytkkd3O!+%cBl2FAtKfootsv^`chp{7M_
z{O_V!mZES=Dn!*ADE<~G21aCD6v8YmXSSFnt0|NsaqDFi8nI39AdoVPxZM%r;yP-r
zn;)rJ++qmfCoo)Q8@KgA@Vo4GP1@u~?c-KDIE24*t081_s738-aDee$G-)#%odRwd
zgCoRtr6b5@0MF|^qHw19j|`6+QmE~=v0J+VtWi*+Slo^jH5{?IV*u7Dc2X>E0fN|(
zu~DpyEpEGk$m<M=+g8lXfZE2bE^vhU?sNp%3~+l1#BX3BN7@<WQ@|}9aEJx*t%s1l
zecVO?hsa`1KxQGMfm;{g0DrOpLZFd>zCheA0Fkvl1yW`aU(rL{iUbW`*i)1ES{y=W
z_OhTdo6y0Ty4Dl1_3X`n(Tiznv2EaS3n&$)ZQxsdghgpg;A>86rYw$MWLt?jRpZjL
zy{WRuvz~};NZ%Hq?A74wJPXC_U0^V9BPRD@e1!(#)%_4$W*fdF_ByR6Vk_^jNiMP4
zqm1!W2N1keBz!$%nP=R4ClS0<D>#4VyVeu2og(<Vv1jgUJrUdc$r>zw%ilaM{aa`@
z`QUvRF6EBP?GXNW3WCd~j!WDS+%=V{4hr7wNyb)c>xtNoSxA{hT*|dzjP1sO+#)FK
zQj@rR3Zc&rvY;}XxMT@|sdkpskOC$(i_3%%-GtCG%eXWLv7e+d$Hav?Y8aQpAh>KW
z0L$#+5)_0^9HNmDj@&D8*$0jgKa`Fjn*lDhKzt*^gTf1CjmsMlxb^-Ppv)dFDL|Ox
z0Sz6><$Uom9^yx&W4z2dOw`$yZ#@y)O@>AXY04KLS1lw9h?)!wDzk}?h!D6UldstD
hh$ZKYk7aO#xx?rP<_tQsBv{kNu%8%4Gj%xs^e^fzJcs}Q

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_3.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_3.npz
index d4f80b7b4debf24fb0c428c6bb5bdb992f442830..6747c3a815dee130ff89b111606c0296e468353d 100644
GIT binary patch
literal 13600
zcmdT~X>3(R6uz$uLMhNfS&D#<MGCTS0kI0ih#)BxL4pd@x3&-7=6#RS7J&k4!KFrt
zK?11|kS(%=O_U{spdlnQhzKG}!zLn&AP}rTbk2P}xA&YkpoxEmn~<gr-<<j8J9B2v
zIg>jgF{zst``T)I_uZfJcg<H<%g~~QdA+*_!^Ji&O`BKqzwqaRk+0<BzG~A7wdq-I
zPsF8X4YX%vdk187wP$%ldQ^7=^Fq4Y1Aiat@JBr2?~wvW*du=L)VZsDhW&qiDRcH5
zSoXrUi-U3rgRK+2eq>O`V4&*!x3_uc^62f?*!-9Ed~Y_+KQ*R+GgPFm3N=olQ57Z(
zso0M!QcM=ADlzO#NyhpY&oCuMZM^maa!3~(+=cEuS11?>`912&F?8F_`$vktXH+_8
zRt!ffjVKjWHA(DJ*6esC-`zQtD|aK2rh<smKh>i<iq+TUWcAF+JENPKE(b>U%SSp*
z;_0ZWO&{Ys!N{z0&gqS0G6b1?N5B`%S6`Z+EANas_XTH@T|KEivS}R0Mpb28Y2%;X
zvi~eortQ64lS@Ov#T5#Kr$#-xx?wDKs$BoCJo>1rhnz=J$E11aTSSk(%JP6<d}le+
zW9-QC5b}V#3i_3*Ean<F#@`u>X`xv&kOjmoudm1hC%x)>WUTv{s!<<)#n_Cyu=Q7D
z196M8QB|4d!n?+tJH@!1a3-!qE^ylW9pPvw{0K<1WD$J)Lb+wY-6Kc`PJ2d2Rc)dR
zS|p8Yc$H~0`D}R)BxB?$4yWG}Rrf@>^46e!lfK~><8=GT!^pzOQw$cWD)E}J<N2M~
zSNZyR<j_F4Rao~0l|I}Dzj5JEyAxkChsvz?+fk%Zzm|roT8Mm6B#oCD3F}SEAW;ws
zDx59KuP1U6kJugS>gG;ci8~oeD0{(L+Oo%~4t4m6VO63Y><J*D>W+{*(@zPT+Mo_l
zMTy-<3?k|t7JrF^aPhuFY;*5evUDI)fhvlHimIB-{`C3x{TCk=rQnVj2swSCsHM0l
za{qew+TAx%lsGQR#;ohBz8leh{&D7D8KcunkV_iVMO6>$YGj5yr?Lhv*!7WsLytb1
z4t8>beGQ7jsVM7TNk0}{>e!11utm4q6(JP}U=~$Wb+43T%frv6aQB*7mTDHXAo=j>
zK6k#t_pH^6_t`h<Tn_6df#f5`LRBT?;dfruw-eB%Ao=j>9#4tNmBsy{XL$4e3Kn^-
zRTH?k*U(T^3wgPu|IY4(s0AD!ZeOHenj=!6vK)JiCTKa6Blz~0gOCXnNNbs>s>mOQ
zbDU}8d68sH^F7JP0|IWq=h8#d9EA#pD!ZsDE)0Ic1etO#wG4^CHaCf=sz>1B-8DB3
zUt%<R^~^JO2$XtZcZeQUz~K@<6c(jaG<6Dhf6mxsu3gv?MS-g?WuvMxu_6{f(H$S3
zzJ**M0K4^KmBW^{_J-K-VJ67b&8r6>2}sus5~}K86yd6QtI)gtN;XmepYr%UuBh&F
z<rRdS>gMaQQ>22)@!1DeW_t?GLn{|mRWY7#Tzc4}APB$tjuN#6iCq>o_9|%pOSkKz
zbHOIBp`of4JBFtwbSYcOylT_=4Reu1tX&uldLkl~Qv3{AA@ZnW%QrGM&05VGf^1;F
zdwo_mswxv}NgWhiYzf^G>GMT+o(TWyq7RCnr8f8lA2V_kJQ+k(9fI0xpkNg^2A=65
zCY5032wTFE`Dl+L;b|NqQwVZc0wQG=;W--O(g`j#QHy_^#?8VLFoZWE@M9D%vklL#
z5Zsi2mnLcQM_AlGJaxh$nvfwv$#Fx-<^a!&aDWUlK(-J~_SlF|0iN{W2#v`IDUb0H
zWHW$#9q|nb{;0sy2Ls&pgRvELEm)(V#If*PL~hqx&w@328ypKyG!RSuw7YOVoU@EA
zJc~diUGG~0NuL$OZU)>oB-J<qUGKg1`3SNZK>Hu@)a%Lx71lkMPXSu)I0W^&i4Ee0
zkj(+w+&BPTzo&!?L@iBk&K_FJh@|`cx`~uogmy0C#2n49)V4+JThiR+CZUCjP_e@1
zS8AJ{W<q5)t=>t2gGH#Z^aZ%Z2LqFZ;xVAqr=dM3pXvb<D0OJ7MdAJCS8Dr62y9rC
zF@!c0+N06)W#QbGPLAA<p!I`r8a-PJ&$Pg0wyjg9``{M=j&Hv3MTQm!8mIV8%@|&~
z*3ec!yzm3_E49sRPVxUXd%AMNT4>f1vV7&Be2&H`yh$d7OXm(HYlPE<KTYAXsY96<
z!F2PkYAIB+6pi_kTP35LH}E(jWfq|viWceS?bQl!mf|QkX^ob25B^yTmDz-{AKIky
z?rJSA2CN9k%|fXS(ezL&Yhy*rEJJw<u~eK<PYB1N#V&3bN=gW(OVz?|0n6+{83&>C
zXsQxWS_YAOC6rEZ1iGcxwdEtoW&q_1#8a_~+lf`HEnaZeP$EDe4PVc-uK~*JL0XP5
zI$v7{jU={mzK{wdp8Ci^hL>5lUUsQe3!j9GlO-ADd?DpS!*ro0bu^(en~-K9kZRmM
n3nH#HO_6hk)CNbOYjz`UgxCy{joW`;t*@3N!o{vm5GnrwRum%g

literal 13874
zcmdT~X>3$g6n@hdgi@e|LMdXM0#X_(s||=XNQ}smLK~2v0(F)*?Z9l#3`40b1E?*E
zjY<p>NQHn1M3w+W6oL&wB_uY82qGY|r6P;0Ar(lx_YL>WIj5Im;-AZF8km9ap8LJ;
z+~q7qV-l0nwb+xb?cH~8dKLS?e_LtkS~yZNu&*yL%c7+k-|_#)|BXLO#=cTm^r}UR
zXm8~>^^hZ&Gt`<>;2M&XXU%c>gW;gfSK<#kb^iSbn<u2R??Yv_fX+Vm&dsyVvHq_o
zc|qNQRWI#m7*>QB)J}1E1cR0a16Ak0GwYp;#XGN%`LF8#-h46tl$Zi`f4RCU#C$>1
zunLoh*X$Q8l1&z>DlzhOMf#?fPZK4^ZMpKZ;E={RI3vyyhu;_SdvtZ>7_sBVy~E`{
z5h}TvHKPQT_Lz#Qnk4qA?0l@AuI|G6wR;4SPK=1%GeZyBW~r~siN?9pc89kST@DoI
zmkK%^o6=ELn?c5NoRHaQUocRRNoQnAZC<ypRDEfFtG_+|?B|qCLF3dOf=!1eY*bao
zkvi$w?fcIVWwP%UnOxd2E)KspFe9u7)!oKor^?m;%43kKddPVs^-8J|zJ>I7Mp+(w
zGrql==rLhzwO{bycNO7Rs<K#U+!+5REN1%W%@Hj4zU6Y4>-?lweT__TK6h%|2VW63
z6VKQFDcJCR3$syGnGEJ#<IkQXT#nll*9tEDwD;HoVSnHekY>d){?H3$esS)&=IAK9
ziybMy&}%@eKZrWphuk?V=<v%6QAbr*3oq%CG_l=fLT1{T>VATZ5q8<^9zCq?0eNZm
zu>7gt(0hKGb?hO*!U($z7OE=onz4b=E55t_^>czlTjo}QpxdYPUFC&0&L8Z4{A=P+
znXUgiB51UU(@<3l7XGpr_#z<zFOCL@GQUsZ;8%Xzl9Nz&vz3#$ysdXFawkIxW$%kC
zyY@TTvn4$Mp%Sh6n&2c<T@i8}eofe#C3N6Pq1g4xAfoPJ@ehk{m+w1B7Wb|dD~Ady
zJShaIsH(~QPhNcA)6m>5#jm_xzunDpbc%~2_pf)a+<8-o(u9k$d)C!2z8^Dq(J|s+
z>BVUkf=epVMO6>WGXh;2BEpS}ulkVJ77Ra{4t8R*b-fUUQc>2wl78V42;IPz-RfR0
zsPGL8sG_QSB_CZKcs`lB*WAh!Ge5_J4_DCbELHfPwQl)7>y{vu11=ICe8gC&s)T&|
ztvdDHWZ_ag_;3Yvy+Y+g>3&uMy>V|1*?D0Sh~L}q(@<3ldG=@U?!FPB1wTHV?oioG
zTc}KBIqHm>ZZ(m^_x6{=1QVX`jWbbIk?V&F?WvP!l4N{FT?@g3Z@6B!Bj}%LizvKR
zSy_s7sqbSV$n?7@m4XOg<|YwU_3$>_S%2-&1wvy${}OYB@XR$|9jxT$wK>=y3X2kD
zHLA#-&j_2$4NJQUQTWvtvr$!<SQ3k#=(dl3zbUxz4cHl+rSi6=ZMeo3e1HftW81nR
zf&>rO4HByAU?kxhY30+k=~989z<o;h=#FsE?I<bp+trQNW2Z<Bk>k_Fr_5>_KMx@n
zRaG&%Q7$ys<HWb$Qd@=Eg2XP1w8?4F=v!@sbMZxfpN6Vh>>8Dl(5G@O@v5!oHZK$;
zV%5*EPY<zBO7Syf4U40WuHHh}bnZ59xM0KAyUPvPsH#k?B=sZXVoBf{#2(s>DV$K#
zq89#l(VIz8xC0WR_8KVu7AOXH9YV|kW{X)edk`rScltr($OM6uS;XCS5SNmuHSM*d
zW^qRwgdfFlnQh!f2Ei+nG<i=MwU0Zu;1K>6O@@%o0e4Hm0Sa1b(%vaL1>B(oM@W8*
zjv$)>jMv-6;mo^^Fg)&mptc{3t!V|YMnZ{VaraByaMa>z4X{RSgJN;V3B>kIj$>tP
zahC@~-egGJB@w$BP}?x5?hqe<y|2A(=m@eI;BJQa08vYIibkvF@+sgB0yxB!woQkS
zzI|M^hePBsCy><e>1)81ayURE8z2no<`jvm(-8S>dx4a_I9w5ixP_@2t`Ad_xC#rQ
zqti^N%qDbjrmp!!E$x~1ptL|OJ{Wk|1WJX$6+Y7-bFXC`g+=L_fEL*TGM}hrDmzNd
z8XKJ`u4I`gW-q&waOY-t;_4BEU&8Q*y<NPNYCCI^`VE~su986G^D_uu`mS+h0^$q1
zVEn^o&%DTdqLz$I4Q8R`ix_9%O*DJ)X9!$6cbxTx@Qq!Ob=lN$rWt}Gk2BFh-kH8~
z=w)ofG@q!YpqoI-EaHr+31e)vCpZq|SE)(3;o>#;LmVozi8F`L=He`Nw;*{$Y8Gef
zAbR4H5G}KeGh`5(Wo3?q^JUa9&PqXW0|d+L;!F^PZpzk3CPnU*IQs%enBAR@Ae#Zs
zctHHf9_+2f^B<Ho&N4t?+n)D<GJ80(hp>YT24iD6UmQ(C{EDYAUS=KMm)Xf{KI{(D
zi{HIKJWKiFsL@2S1@Ux_36<Hzks1VEXFwe3$T{Qa2#!$Kn~o5hK?`;l)wF!}^C7#V
JEY9Vh{sr0^<XZp$

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_4.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_4.npz
index 0fe92a6131fc6d8b7902e7a18bc24579df8b8649..263c2cab078326e5cbfe7b38cae817c0a4c7063e 100644
GIT binary patch
literal 13600
zcmdT~X>3$g6n@jvQrfb&Sju8ck)rI2dl8pVFa#(~(16fkIx}sD%*LB(p+(75K-{n(
zA^eg;(3F58A`oOLT8I$@F<3!CEQ@RcQUU}al6udZp6NShZsmu6E-!(GhVP#H-S6Dx
zEP3N&+YHjeU#7MtdG@}h<}X1@(Sl{x;e);Ya*NhUd%O96;m_q0r%cG3YSGHHdD#wU
zz^-RMlaZZM^i=l1jO-$x9@K4Kt50`0;rF>VcfcurA1JZ;o#Nm9A03$SM#lg85_7lR
zxK}^-(&#+GVC#$`H!_Gf7^ph`?Y$RWp1l1pHvct4->t;?Cx;a%^vzXQg=VMFs0z*-
zzb!x(i4hj6DiL3~;-&Z8XPFXJ)~o5rp|jxND05itK5xM1cB(7KLF21uR1Tj^8iiCk
zQYxxy;_b5F>jP`}?oORDCV)gz1(8B`sZ+O=tFOyKL1xUhFPSc{b+;g!rmoR+RMiH~
zt=@}HFfyYWZ@q<VQUsY|o5$rXR$rPUeNNn&KkF1@lb2b!3fXjtVxy`uoAi=pS6}BR
zS>``^S;(b>;9~cA{G~ysuI@1wzEv8TCav-qp{gEo9$#1rJW@SIs>)+i&uNZl8xC_l
zmX9TG74$1rS;P)l-0jyNt}zxH^v~l^4LG-oTyvdp)2qHmo@kh~WTm%`u{rXIr2yH$
zxkcHitxN;sGArMji(KHgcia3ypZ@`n=6iA1-?+!Gl=KxlZX+GI?HL_awaJ3(an}{5
z&9wY=2at>rr`QVJ&Y-$CO3s$=%4(~RGZs~wzdD61j5x($p{f$=z8(MMJ1<;h9EN|G
z)B`!R7jEU(U0$UxcX*<Ve!P~^`19;9-yn^o78<H*amWa?_^vR&Pz(|!KCi;jqWpOx
zC-H#2vE(F_ePG>RiFU9jz@1dx5poKt8|sJRwuUT9_&s6}QTMW_txg|uvhPuLLXBBi
zFa)VU7R5wGRZaHZ>OZ}z?kXc<-W%{n^!N&0BB`agD02U5ntJIc6eWs_vS-%x9WN)x
z47l(gx^!Z?sOn*IRm>g+yFTEt>A?rn!K$q%_M?MwD$4rTF5>_@!~83ye$NV|0tc8$
z6;<8KYHSo9vIj1d#vl<0K8kdgqgdg0R+_j?;wyjVa!l@Afh-{S2(wUCiGh$ixy_ZR
zPP`aNEkf{7q&uAzDrXk+L<BYS+$JW)-PuihQ3`msH`7p6i)%Fy37%#omK3gDk0jvw
zaJT{`b8LYUmF3XZUq3RTa4BPQ=6L-bWC9867AC4HQdI{pEndtW@#;=eck{UHx^IrH
zOyQ#{bgAF4giqgRg4E>R+=GI^HjfZdRgWuBp}Ne=hmA9LwnZ9{>V@4QYE&MZUHnj3
zl%@MJL}h0U6J^iTgCx~U*{G_FQER`z?~&5Ar7xl~Z~!~>a+Qy*P|C)!rz?U?kc~Z;
z)glQ9*9{V?>X6pvl@5b8pJNn;4Yigb1qi2{Zl^t{yX@8yU!l73dgy5*yUV!jtD86z
zxxjsB=Ax=9LXwZJ)$n^{@78HHWCF);v8_UFLBiL19uuU_zv>U90h_#;hN@cJ6=jd$
z@^y@aJ+yx^k_eXzgI;Gqgi?y%A>pk1M#d(!D*rsP36~4aY*ba|WB;hcV{3mDTr4qz
zVrly#v?s!!gm7lU_&a2QAK1*uQP47osCa^^Gf=P!90P57h)E`xH-#->DblpZk<c24
z$V7r17lTNdMQBGuTxWtyj@6=@)3{k^0Yi940zXFKGTYF0h2T^IUfo8MH(_!6(CUOk
zbR|Rh;-ZF-%>mkraDWstK#mYi)@;P504+T@LKiYZVp~3fYzC0jLVO2;KPvFFVSw9i
z9lI*Qgf$XM91HCta=S(COjx6~!Lga5MFX+aPX`O<!#T^?LR$nP>3ZK3NZM8qei?Av
z(29T~(DklM;v>jr0OfzgQ?L6#P+`?``4ph!jzdtdo6$aM2-zH<%#8!k^?OXXK+sh5
z=Io)gj7YlA8zV@WMJVSYPRud#g)Cddz9q$7ZW2nU2o)<F`9hX?ogz?~O|y4W;Pc|B
zG1UdQ#nypwLh&$A>eH<Q4@7`+hc<0O;r)>>WT_GY8x~~@p$vsfLr>3q;oPQ5j@*x+
z^n-AEdiD~YX@bjao4L|`a9)6;i!XeUp~Qj4DSmS|hQIGx3qOc_A<O)SDE@x4rz<xu
zO*5yE<tqp2bDTVdckNE$(z!#*8sT)|f2VNS)FDlbV7hs0(uHcKq%mLe6p@-mB;CB8
z9*C4#gmft4=;j^P6L6;FC^rcyNQBZo_;(9bW)sqW2&D4v?j;@uED6ZXLaGhX^io^g
z+l-c3hV&L<sW_7!7LG-eUEDCFln_jpDlNkVmf3|g4npbG)F7ZV4I=kSNS)vabW44f
z$w!dQ0MZqRr(%`&5v$gcyx^=MMSwthd_9-d43yb}upD7@zLvfk32fzjArwYD^^rpi
zFS8EeC!(oTD<6S}lPMVGd?DmRC|#(6ei5k5CWKiCq#9>s!-;DSQ{<c>w80VRnq7|?
XAv}XP<MlsM8>vkY$Hngca8mvY=Qkw;

literal 13874
zcmdT~du)wo82?UDv~_P?%Bsbbs5`q>WLp#yRuUFQkJEF$(;hiD-#INhlT(*nS((VP
zWK&`bVe8BgLs~1@#%#noHYV;X!`Kk1OzeHX)Au{i^YpD|**~vOq|T||`@FyJ_q><q
zk~^VU^JFdhWN6!y<{o&Hec*pvX~|l+*gkBKKe)iAwKu=x|BwHUKdUEAotQh_rWI?i
zX1er{)5v@#Ju}<=RAyFsraNGS4Ts+zFkCwSKF8q=>FoPZp(CiX&;9ymrN5T`zn+Ag
zowx4S%)c@^7ctl|%k32m;!Oss&VN_hva6GK{YmD(e#qOUV*W`{1@Z&))m0(t3z~*i
z&~N>=M6gJ(Sg5K*eCe7O-tk@_N|f2JrwR@o7zbCe%kB*LLjkX@t{jKWr-o2DayoI8
zpwbRgQB@Ov$0hp?t*5IyW$KuaAd<p}<a>*B!?8epU6wL3V|IQ?ba|zl?SY`vsUaOz
zwc-0#+OkuG%&41pUKeDN8JPly&*LvpUz%gRPSq`%bC$5l%_v<f*mP{bMpb3D8ilK_
zFQhwJ#y`2e1(&vri!<O07KL>~-EAy-s@x=+G|FSRs(Q$Id|}J;N%a_^Dvzx_X1Ja`
zbA;-#dMvuD2)|O5MY92KbpG|n8-&Fc<MS3m4Zd%=J@a*b(yP8ko;dT;iue81gw3%}
zY<YqW-?uOuwUs$TxXhVi&k<bsY43Fe!-3!<AkFvetiN@i9w~*3dyaS*9c6d1MWaXN
z?H+%TsFS*8_gz7UUtWkhs=8Wle%kN7M##*Vvgwc@V}@Ohe6Jo>_khga{#|ip`ANc}
zY};371q(CmGFhmq#HMd1Jo(mhmkEbq?<IB@9NI9q3K|~2(svbp;~G7(lF<0$!Y^M7
z8i_F)s%r6r88^~Z0WVx8iNb(i;ow((+me$|cC-C2B$T}`Hcg^6UlZJ&R9z8r3MpG^
zhKOa&lS0w!l}SY1!=kc0b@1sv$H@*gW@+AFL4_xU02Ng=*?*_s%(Ck1ga};V{L1SK
z<a=0-PH|D>{`Fw`m7jzt4Y(+~XU*I_J}GWM?L%~FPjpe$!{n+!596yo<Z~F|N7KQ|
z?WYb32cuM!^{>6=26mqKS8`3&8bO6`U_cdB-OFw+6q<nu)fUAGB0TtT8y;7I!uPDM
z>@<ll{h7)!xkHIy!Gn(|3ssfK;;Ep!REhG0%T}h82On-j*Gp7Rl;*MsYWAhAM2dTJ
zAM6)W@Oyhb4OO+cv5`lD=Lm@v`Rg_d68!jZc|wKr9HBy$<<K_&b!=k(O2Xv)$(lOB
zgy-L5OjK2*teW4nXl;7<%X?56(dTg*fq9N%g}186mA*q;eY%_ovN7j&l@Nq4bBl<o
zdR*fLx2v=odUN)kmVyS)T=UhzN^U-fll@Rwl$8h4S)pn@5v6MSVU)SXY*baoY#pej
z=Sb0pqUVJ&d;@kF3sl~=BFPnF&y|FUAQe4URSFV3TsKLmszcZ2)7lQ)c8O3JI>cTq
zDDZGf_v+5D;c?mv1NrL4>yf9;>@MMQpnB45!G)iPkc+CSFiAeTv5}r5`*+N62qt{{
zEpU{mElBiO&n1FX2iIN{H25N~r=hAA_gL8@ym}KM;fx%dEJ#GFpJBfqVxg4cXGk>b
zUP0KTluh|vu!&YbAsbbd`8YT#;lzfcjEgOfYY=^CH)j3U>_^1L|1EkmDGGN$LR7Vh
z;%|XsaMvNkEM~TtC94OKB5|i5M2?FSNSQ_4T?cVV&9sKScGN8HXoK(*7%sDoyT~AT
zU2{#|Q%3FM&Mi1ZphbfrWOKmXQgDFmcum?nMW=u}l;8*nE$Ild8Nj4g+ZddA*Kvl&
z{SVZ3<Jh&W0M<+>Q7rC$i5ZUA+^qrDtZh(i2I@G0*g**~tc)%0@_@+O42ioWqBjF-
z8+TT~5vmjE2(lUAZU%^dH%X(_bNLi-2LT*nR-1-HNZ&rL+QT8Tm=j29`1Cd4N;w>$
zjtvk7b#scu)oF;VYA2Ag7l$jt5VxeghU>%BB(B0j=!+dJsLUpGaHg*HL~QLkGGMF@
zN-Z`Htg(PnVHyX1&`DU7uL;oI#}<(FL~MEND6wj6bfUPDWue&e&qxvO{1BeFdIaIu
zFubX^%ifChL~J`cYm)j6ojb0QSa3G?(k=ww<hy1rWIYkv#I6|M)a;oTSx>~)rJDw`
z(DFr$Gw>FgP5wNAOXrTW-Vpv-DzYw{I?gmhaB+7gI><ZISDuWryAYY(Lm*`qaYhy5
zw8uCO<X5RloW+FDZ(~rIO`JJ|z~yP|Zb9;h)GW@{LG-kq5G}KeGh`5(md+dt=gX*J
zoRxy$S_qce#hD-ot;o=%c_C^XXJ6n53wzNKWHZ1S4~QSvo4vJI{(~CESq2Df)2ALN
zvxg&l2s_GPFgBL2LL5y){D+TYyv#a|U?JMwm*2fWJWKiFs1ZU3W?E30O&qB~;NJ}B
l_P|I-&KXBXaD;vR=m^mnv|x8pO&iJntYmkT<^B1me*uW?=Bxk!

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_5.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__hh_work_type_2_fulltime__household_type_4__n_residents_5.npz
index e8b4976052ddbfe0e616c08f07e243ba5fce40da..6e2abaf5f7127da8ad3727cbb784c7a05e23590f 100644
GIT binary patch
literal 14122
zcmdT~Yiv|S6ut`-p%f@k9<2qofVRaJs~|K8ic|z7K&4cJDVBZQZP#pf*WG1-5=p7Z
zLoAINz@+iPJAfJ>jS3oQ3KFBDjS@*s5ac0^$SXo10l_(Udv5PJot7W|ncjpnZTRNQ
zH{UsDX3m`a8J)XiYq2j)8}U+&^Ir4UO-s@u(c;HP`GZSrTB5eP`G4Wh_huE&%%5k|
zqT14Qw;pzd(#PA=CwOwxv+U`fKqwM&_=^J}w+?@Q&fyE|;_u;7M^G2PXJlsCU$_6S
zFMjis&;R-Nc+=DQgu(P}O*zP*tHD6k`KP|@e)81pOKkp|a^6~w^G}E=;0!EQSA}M$
z(5MQR*E<T4MZC#ERVAwHZ)6lzpJ7T28Q55f9Qp_j?x?%i74U}xK3!co%9B2u`bYV3
zM#Y`_HZr-_n^I9#le9gd(swTL=nf>OJdI5H3nEV6LOtYIqP{M<r)F1e^zUQ392&VH
z4e9i2O-EI2Hsr1KUAW!I$xN=EgJhBfnG#2t*I%N(H2Xfdvg7ECvy9Dvy5|d!P2W~*
zR8{7{^n^~2tm2t0?N0u1<kCxUaRthP3nO|+-82^4Rjx8k+T<}>RXyZ9F8=8`FV$m=
zsyuSmJhR|@!*5KF<Xsz6kO!Pq(63ZwVH~)st}qq{#@q9d1>`M{cd-sTz3MTNwQ4})
zk2eo9HY>)hPCz!0w<sG`mHEUt44-0L&UkIzkqhkhK1VPT2zCHzj{N}NIYwvy7Y8RG
z9oX#|9aXi-EQ0g#-;7M*ri130(zvHMoIX9G?v66ISGL&bxrg1p`$kWc#JHyzEL2sZ
z_S@*ek5Vo$B{Gf_Ek+JKg<AzfUcb_tdlzF@tYb75G@h<O8a-NQsH#Qme!`=|dO|Ts
zlm`3?-xlS^6FG?vcE*yEQ1*Z&S7Ps&%)ulk40n1$)tIO=ZXdt1z_u#U9ReFjs7gVu
zLsf3-7}NnuL9s)XK}6jh?|tblefx%KQKSN;APW^$H5t_9MX`DFLaEiQ;GkO;aC${$
zPH|D>{?#s*4wiVsD_(6v2WzE^vibMw?VZ<to>|{c>PlojrfRg@-@_n-h07eFNXHD8
zsk@e$H(X9d*;r|~S#Wk+4L>d>Uz&6gV+E42MHN-u>)f`QBlbO)S)k}cOTI@Ua2xc5
zyzUZ(557h4^j39(v9P9LxDCcwsH%iK(5GIQw;z>&+n^_;>*Xq!dK)&uJ8mtLV(-L~
z>qrAGQq43})go3S;RT<j$~p6q1Z*E}Z@6@kBV4Mo9NMENM|54jp2@MIx^Ofyffs}p
zCaNm(m2ns0d1~C(qsZyE%<BpT7CE8{r>eRkZ(e-i%XLhU%cGB7LqQ<SO(Lr5u{Ag`
z{=^pko;$N(@-U<UwReaP@n~4)aETuZi*gH2i_Sev6yKEB79txs`cgKkDg$-V9Y^`A
zNHjZZH*$dl><%qaIc?P$f>ba;R{m8~izJ}*V31H%ht=?$Q^2dcYZE7KM+)Fmx=(jS
zLS9#KX~3y&?IFi#ci7D2$onR48FGRB(8@(sRho>8A>T)=U0RTSOC05D3lcjlYOGCb
zOXFiJQ4k37W*Vw$5i10J%Dn32FSn|ZMC|=G;@89CDy8@y@+>sb?A*)PB#ymt7}-F)
zd%RXQsw#8GNWTq&i>*_3XWCB+{i5)%8~UL5Sz&`;u)CC_pobGtT?wk*K*1_-3`8Vi
z5(uVJ*b<h^E=rDsUPVO46Xdi`h?H4`{y@a_A-IIjTI+5>ZWem-5Z;@>Pf)nbHuS+E
zxIY1ZEMC{7U2)t#^q%1m{m2l3xK=~R=5R>#d*J{{WPk}mG+Fl-p91t);Rt=n2=Nc_
z5o9xf`#R!#5&W+LPdhlc?Y6NWcC%oOf)d9<|Bl?Qr@IAf6gxQ<dS(zy{dAOYKAf|R
zE%d1%lCJl4fuwyNv6BI}4ZR^a0$uO=9()AZ44@wa@zm?q2`a3eK|TfOfxscC*Uj(Q
zY6#gJpzi<&pzAkMxIo0xg}~XvTR$RcoL@DOGK=uOjyN$#^Q*Acint}O?c5~1X(Lpu
zu=!QkmL{4|nN6#AQs5+!YAkOY++y3nIH7n9DD~;Kf!~=xsYAmXrJQ565IAPhc(H76
zsv>O6ufjH0xVHh6Ee*WIp*@;*2MV9GJZH%r5Z=EKPSfrg3YXcoE)or(-2*hq3sifQ
zDSpvFhL?&2Z!0)?iq9Lw@KUX;^A`?ieigRf$rOJ-_H^YN1=>=(majb2?Q!xHzBPry
zrQD%bj&Lem;6VbHO&#jf2&P#hH&r-|rCQydWHf8sHIXulP=`f}G;7ok28))eEH??Y
zPlVFoUo*sn%4|Zt5rI_RSwqE%gjFB8S*Y<Ln(n59>{hhQGSt-&OT{@Yux4>e?if(Z
zLNHybooN=Z%r4ZA5K8yN;4qEVU*yK2W`iTpka}u3A3-()sFNU`iWNUXtXfOegfBPL
zCJ;!|-%kjX*@Joj!svY8eMloWYB^uHgCm~$$SV(1yv(}wluf0|NQV=f<rd8O!d(*$
z(}lXy0+rc>`yB$Q#<dxc@U8bFIcK<2;RtliDl_>Au^Ge}*N(B;Sna4t7qdn}ru+}e
CREDAe

literal 14396
zcmdT~Yiv|S6u!&5rG*0J(b~cm(6&&p3JO6G1$hT4)T)?b+3wzL*KBv|?y{5`$?`^_
zG{gX!MidYbd{IJF(6miKVxpKviKHfg@@f@%MF<%1F>`O{?m4H^662rYHVy2;H)p>4
zoilUh%*mP6u~VXEK55#}=c)?VvJd>Xo0h1B!UYeH^p!5LX$i)6{QvQP<IfvU=grQU
zZ_~osE9ovh=nSNfv!{=Dk4?|Ar@Q@uP{83U@CRHv|9+~&8`RnN!D2_L&OT>kX4zl0
z|F0)@`;<@r`0IG{#2mz6#?Iz!!Jv!5K-KxDyx@B5^qfm%{@b!&Unb@sXDU$WFH=_q
z(-$-it8jUfBTul1wOFXCL}mSrjQq+oM2Ug@8<z_Xy%+~q*j3>4`+|P2uC5&Ai62k<
zrTjRd;!0WnkD$^MQ&Cluw0(i%jhAS2`;(F<3L<?OkwWhxJ>XcPzAj@=&#Bnr+fQ_<
z9kw}5(CO2fj;h*hp1jW6bi0v~nN&GXkV#}@iX0^#Uy=IK?0@^p?xVBL5;pznX66bu
zy<4$SRhdIG;yMgpLszo2J2^uHmmZ9Z(_d1$D5M9}UB=8^<tovnO&+6E)kDtX;sy74
zsUD+M<&pi`lMBx`{6zFf+PfuL@Zh<M@GDhW7ztO!6~f}sIQwM5g0EX{Pnphldevhj
zYfZn#?`|F@Y*vn08z<QCbqljmRhbWsWcW1Ua>iqe5nT9g?{$=h{H6DRG{?T>&pATp
zPRH8X_UI_PicRI){hnV5or9m%j2Cox@<P;6)zvcddAk2QA(OYQX1yR|9J?HaUOlAl
z2Kh{n5iD<^0dxEB74d?FaqKc!sH(()ufsL(BsUQyGLGbz2@dhhtx5wPpVGNXCu5VZ
zBQzE^{#+$!bdS<dRSWaDMWX^HTn33^zfa-AuRPn5lTdcC{Vybx%@^e)sz+z0qL?t;
z=@C_9qRu!>og#q^-6@6#HYcGf1-T9tV^c;89e8ES%n=PD>h5@NN{bG=Hct-=D!j4<
zsHm#RfKJb{&70PJp<D61y~JPWVTDG;MUnegyIk(Eg*UkJrDow^t#na#{k?j7&$aJo
z*SE8DB@iD|HCpcOVSEJ(mN){Tdox(3?Okde*eMldW2NC{?%ADHG+j)(^u$FGD||5q
zs;KH-=XO>dvG2P~0!1HG^o=0GPlN7&$5o_o;+xNJ5-Uy+7H}Enr$Lj2s!GTMeOlA}
zgF*>@8gvJAy<FwWb;CA(Eq#DUQ9YsPx}d=iQY|!8)xxZi(E3&L@_7pc3BG-}Ji+3{
zj$pCMa%c~p9NJ~sCL+hm%Dhp63BM4DGEr5LFO0JYU8lx;ITB^RB_3zMzt|C0c&Vxz
zxa#8E&o>Z3E{{5PO$frn+#;f?9`BV-h&{1`UQf@?oitd`;8zJeI@ld(iNneMP*{{(
zJX<W>M?~>Xd3ljw!&6_(Mpb2aU3B+RddU+Wk@bP#!WUpyV2R4hR-GY8gb1?wxBLTw
z1TQ@pBvjR5Ex(=0rPbYa2@`e+3f!l3ukH*5JkEk*f1$dyhis#JV>^*!@>iXg3NCy<
zgj`frrP(+b(tQLro$=+j$WgAgAZD^iyUunrKD1g0!h^hphN@bag`kg!SDpOfR;3_e
zUPp&~dXOEZ6yHOhGA;?L37dpRZyXkEc)Ytkkd3O!+%cBl2FAtKfootsv^`chp{7M_
z{O_V!mZES=Dn!*ADE<~G21aCD6v8YmXSSFnt0|NsaqDFi8nI39AdoVPxZM%r;yP-r
zn;)rJ++qmfCoo)Q8@KgA@Vo4GP1@u~?c-KDIE24*t081_s738-aDee$G-)#%odRwd
zgCoRtr6b5@0MF|^qHw19j|`6+QmE~=v0J+VtWi*+Slo^jH5{?IV*u7Dc2X>E0fN|(
zu~DpyEpEGk$m<M=+g8lXfZE2bE^vhU?sNp%3~+l1#BX3BN7@<WQ@|}9aEJx*t%s1l
zecVO?hsa`1KxQGMfm;{g0DrOpLZFd>zCheA0Fkvl1yW`aU(rL{iUbW`*i)1ES{y=W
z_OhTdo6y0Ty4Dl1_3X`n(Tiznv2EaS3n&$)ZQxsdghgpg;A>86rYw$MWLt?jRpZjL
zy{WRuvz~};NZ%Hq?A74wJPXC_U0^V9BPRD@e1!(#)%_4$W*fdF_ByR6Vk_^jNiMP4
zqm1!W2N1keBz!$%nP=R4ClS0<D>#4VyVeu2og(<Vv1jgUJrUdc$r>zw%ilaM{aa`@
z`QUvRF6EBP?GXNW3WCd~j!WDS+%=V{4hr7wNyb)c>xtNoSxA{hT*|dzjP1sO+#)FK
zQj@rR3Zc&rvY;}XxMT@|sdkpskOC$(i_3%%-GtCG%eXWLv7e+d$Hav?Y8aQpAh>KW
z0L$#+5)_0^9HNmDj@&D8*$0jgKa`Fjn*lDhKzt*^gTf1CjmsMlxb^-Ppv)dFDL|Ox
z0Sz6><$Uom9^yx&W4z2dOw`$yZ#@y)O@>AXY04KLS1lw9h?)!wDzk}?h!D6UldstD
hh$ZKYk7aO#xx?rP<_tQsBv{kNu%8%4Gj%xs^e^fzJcs}Q

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_3__n_residents_3.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_3__n_residents_3.npz
index ad283f2afeb1fc53598dc694810ec88a3c831ac9..5d7d97fa9818c98cecc0ffd40cb860d70df7bb06 100644
GIT binary patch
literal 13340
zcmdT~eQZ=k5P#Q}Qrc2lC@o?wS5OL4^b|#_5DbWl1U*6^egNgJ_pUv2y{mWEqg2!b
zLW-yXC5RBAprS$u3TXWzP)V$43`BwwA__tXwu-GZjUUk9&U-i4H*+ig;Xlhuq(b`J
z+28(Vc6VmhIXyLPtY&^C+RrVSmoCS@3@u-aL@RE+DNwt}rsZlY;=hGI*E}?PhVxOI
z7S*0A_2}WsQ0ZOv(h1%>OUvw~-e4#aas?`aA&(CKexJ)9*2TYvt6jCa`1`2QW%j4-
z|Le<awZ9jte(CHaCt(o!aZ)NWNH-X$I{%ihwoGmAI?v|6#j$b;&Oh5!z#XhtSB1D!
zXjFv<m;8AKS!5<ysH(*1xvLIzk2=AW*zUN{gB<b%2T#;fQ5g(`gMM9IIo|pG$P9Px
zK}O}x1s7gGDg!7LRW(`u%gm38m!D%qax<Q(K_Y_%5x2ii54jepuZ!dTgVB9W8yKB;
z=iRs;=?qGyqpCI=*2DJ=BeQdI>mekQFUVB6YJ7nz^`$u~0_KtOQ;dz?bz&K^8JNUI
zRb|qbtex__{|w_&a>+RYx#S2gmBE_Yx`-Z9cN;TLl}^T^e@FHTDUWfg>S0__&hwMy
zgLz&*@_;iQ^-z_C*oeh${2No_vzZsBBMXRkudiN*6H;~G+B+>fWlUo;W0P_4^CQRx
z;+?WlRT<+{8G4LyDKF`K9l5|M>37veg0)wHG{cSk>nNkMrJ!jR(t%Tw(NR^K!sCbj
zn02O&kr|&eXCsm^?)NUYUyrD}6VELNA3Mxg6g*jtBrY5GdxM3lO1!u(FmPGRX~tpw
z?(8p-M1SE{wIN?X=|gd~aqZg1XbhWtaWT@!>ZPHo7Pn;VD0<Ap@AcLjib0|}7*IIN
zl3!2cB$U0I$VrS}RaZ>h$xz}pRo%&9oETrTn6N6*4`KpHs7gVu!*OTDTc`t6AI$rR
zK}6ld!eIpWr%a9Fi@WYXDo}l}P*GJA^TcRpM67NFcf^{Y+b4=aii;xmFUL0f%_vF|
z7iIUX)grq+cac{f@@M8XAeUUGi>e-0)>t6!haFe&Fo^najVlznIvs4dy>K0h!l@|h
zU!5c2e)0)Z#WjC<I#PiR%%X~_?)CEd#glHI&r|jmSI=oA0?CIr<nvT1e9wxtfgXFA
z9N(}0ArDzV@?o-2Rf#z{V|Q=t;DKIvtZ@x;faJp)()9+FD{`BS<YPUPB5O?gUq}P)
z?Qt5aYGHKTdU!dm?v1+1NCJ)zk1t%k&=sy$S&mr#&ij9Ah%h-`o3<wlnLwepmx-#1
zG<WqJt#9KOt&g|1H6ah!aBF;(q2NMSRN<}ao|6xYOXE@|$cI}yJCF#3d4h<ldKee@
zyLo!<9K5O<X+WtLqC@m{YFw4#hr*&PFp5`AOq3n%W9~&ZaP_5ZR8_`oi1Ks9v8-qx
za)Axl6I!J5wxw-{{`3MS$fhX^+mQsM>jnu`b#NNFA#WF+sCA!03gA<^U$2aWe3cc|
zLASd3x+zDD$?@%T^T~N=<)W%8dn0Rxq|M>?UF%~S*nX>A4T=k5ChP1qO?XHN3Gz4%
zRkbiK?M2&}SM{Bm)`bybwhJQxJuFfw#m^A!*(Zc^y~@}G{DUSU8;EzW&&ozsWsFqh
z?N-6XmNGV#KKp}beehpK+y&uB%m#nrBS4OVr*?=+hhL0;G1~$0e~~Dx0>?l^A|@LF
z;%CgZRM--h5|7<D5}uSHGLs-5NI|5`B0S?lTpqz?r)tTMy0}?*I)(571b&RdWwznD
z5`qU4@a8m4{&<PohbKZf#2_+6uuswuvN^!B92_8@3@|~6CVQmArvOi3aD;(mgv`Et
z1lbIrY>N0Cg8xq7>4O1o8=ic~v70h1SfilCvGB|SvDDYR{d%#o8N<^CMA9`Y6Rt;}
z2AHQiw++t;a0I$$e<zI~n*p@&5l=m*HA~|iaQPIVZH_}w&si&0L()X&9H3Q=1JLzz
z_ZJaoX<Tz8w1*K%V|A2p023)=4J}#32@{DgX8Tp(NQ0J}gf=Kb#R?_9m~D>;+c;Ea
z)9RfRSf49^y^Tn2@!x?H#Xe&KrG5!5Hu+RjgsYf9qv3WXi^78wU(EIe0%Z)Lm4x=_
z4!BbIg{2!K_akWEAe`=ivqfxJ;4<6RMWS&~EZjP|fx;<6n*xnfd^^WW*BV*_h!=7u
zzL>4KfZG4B+0&Ja6>8Qpuzcm91dhfjeEJXym(Cr^&IqRqUvLe9%cc&cUIf$NJt@G}
z!Y^NPD6b-t2JhCPh?H4`k|yG4@cOO=oTb3YO+pzFp)>{^MG2_PCY0_FNagJoz~1tg
zTpuWxA(|dc`>(U2WtO2tg;*+1W3g~7TCn1Lp)7=8x>U|#7O>1NlwuG{kETMq#!4A-
z)=>Vy5ok!AO&UQq11LElo{F`rM66nG0fMuJG#`O<`-%>a17-FgwMH17Z}|vKl4x_Y
zkj^5W`beMaDPCsXdSRtf9TsSkP;$eNwxMCVP_NvOfXZw_s)RtQ@#7;!IFM9Bt}&!1
eI09X>(WQI@a|V5k8~iwJoR%lHi*E5-n)VM<?cd@6

literal 13614
zcmdT~eQZ-z6n}*=#x}+VV?&%<2gvxCS`-l!gBc<sK}yg?46wE9>sr&b^R*i=Q43@N
zKS2p1C=66o2th<d5rUK8g2rGVQ$j>V7Q|uZCJO<D1@C>`eLd&&ihuae<q<O4@w?~#
z-tXLx^WmJ{Gbvk(J%!qDjj2~wun+uiik7WKYRhiFHCVmKre&Jn@&Ctv$Dh>?KRUxX
z$EMY4PZfFeaD`EHx4mehcYIN?y~rCfB8Dqi7BW0K|Na42Agr_R!#-EF&OVPAS!{pW
z{=c5oCi_mq_sW?`PQ<|YX;M$YAlYP~>iiqO-aKVbXB(OSX2<hO#Qf7^3b;cH)m0(p
z3z~*icxcI`7QrIbVxg)MBj>I>cwxjzqQo}G`7XgBi*fMOddez7!Eh*`t1HL*e;%9R
z&OA)0yi<PuMM0$>rlP7Q^}o;hG{62VA(EN$OqC!qkP&eQYIMW3NPS%#yARhMXjo6^
zd@yg+=Yr0FL^`T!vwj_ajuJ9EN}7%cGTDqwrK`#xtW;l`X0~7+n{bM-(K}Br6Kwh?
zuu)Z+<Rxn+zYu64Tneu^hYBtkj7vqRs=6kk8|rRju~Vgk@aWr~zCz054psFquPANw
zWchfWHz0WMGhXPSDhsv|v)%X)qQ)1q&QBLC_<HyH7wY_kRNc4sPfPDHdifs0Cgt##
z#{?U`-Z2|hl`&71!N&=g356YR2`>DU47jQzq3Y{Enjz-?)lBGIN^UQ>79C|*e|gK6
zHxAi%5;~i68fFVR{Lm-rsOoCDCyrd4-O@_PjLRt9Ajp{Eipw3)BkCS3b0_d6^DSYK
z^Q7;pU}1(UCJR-Scxi30|FXu@gu}XB>0b#BeVJQT8~&iuXZ$Mj7P*zsC@8tSSkOp|
z(@<55F)7>g9{12N1zxyJ624GS;h<4|+me$|cC(d}7`L(}AGwpM#8_3`$zdLV-;gx{
zmFUCQ1Sg>?1-T9<oMrC{9e6S&cD*u*sC!sA%*DNrsF8p9!@C3(o=gE$RMjMQVw@vH
zpj+`PZ&k?cXSprKMUnfLW2^l(AxZ)lW%sOAELcB#nI=-QXJyq1E}29ZRXwbDc@DcD
zwqL`;_^J<Axs1s5>0m?bxod?el!~(c)iIpkPd+26xaQX<3o3jA1FER%Uaz(-o^<DY
znt^C^b)6POc<|vh{GLjM?^)4SuE%~N#}BK1%n~ek@DXF7suHCcx9r-`P8WLa@#U)p
z2OfNQ4PCEOIl;Ke3_jKoDbhwK|0QVfdwVwxRkbh+h+Q<hSo3yGi6Fs`505|WTi^=&
zRF)%}y<_SxbrB-Ro6|l@6HIvCI?hB@MfP-dH7{(X7p=WpS{nopzTsB+D~!+rSFOTZ
z)qOwDWS7RJM37ImbhHa1e3@HBRMo@0z~4i|bLYU77X%HSx#p{bm8z;-73_z?qLiD-
zs|F&<_H(1}7i{>|7qd}SnOJ?7o+FNBc?Sd+z5#oTMJjJw+BRNpFDHU*oV?(iAi=|R
zlZ2`|IL+9QRzFWxyH5!U+^6(_UJ)_;6=lAVTitj)CP$RW@!fOt(Rm2DsH)2T$m&5!
zrS!fFdxQA)Tj{D(T##6>PMU+lg9_0i@1~)u7UrcrZyWKd-cyn~#R`d4KO;ds%t9%}
z&k*g|Czx}+PS^wk1MU@U_<HyHAsbbdF+-8}niv;b53WJ%p<RsKU$Y-k8~?ZHX{0FJ
zIS5e)O%#6%6a!aedK|(mEoHWtC98LjB5{XY92&Jf*h3&?7I9Y^#HIJt5_{CBS=<Q*
z;m0vtW*c{3LGY#|P2P(|?c<IoI7Fyd!Vt1K;4ULLz{F%t+H*vwfIEBO2&uj42(lT#
zv}r~h&NTm?;c@>1wT(Mi;^3%lV+z2U2_=ffT_X_d?Gwk!W{f*EAhI}BBb^Sh)1BJJ
z-4SqvzY|7~%>Z{KKzvi0Ml0a*Dc~*uIK&#Z@<<WAO!@|K<sA;;>6<Wwj0UcD!vV%H
zPl$lpH+_M)!VHlYEu_pMuIfVEzJ406@lunxk_w?qGcBmhCUkJ7j`c)sQ?nQ_UdyBw
z{~eg#UjU`T;3}PEkS(dB7SOEOUCSa{1lAL^y*8lRqKqM~Mp-CkZw@;}KtV_Dinsy<
z;ll<ZxXd<uNsOHJL~U&hoLGaQlyRlQg0s2r%^`T{yT;W8h_BDZ`2U(ca|Y{)+GY;Y
zU?y4q=5Q9>LbJ&az5&CfbH|x$2tR}2vZ>>2F$C`z%v1xpWBST*h87|tHwvW8BF>6J
z-1t0>136M^5@#YI^lBU`vx&2R5P0Y&c0VAwKx!6e+#vepe2A7=##t_iEiGV<g>zoi
zFwQJNaDg3wWp;5k2SR^kP@D~sdnL}Gz!7#A(h+1cz*!53j}BpPEuO=mtZ}9Q0;de^
z2FmQ==p4dQhG~*motniFF~m0$yv#bh^Ri>pde|N2W`2JHF)1~SBR>ntmcKsSg34^-
qXbS>I74aPxMk{iSafAa$xRfwLYzDp9eNxlLvOkZo3&x=l{L?>j*{p*A

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_3__n_residents_4.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_3__n_residents_4.npz
index ad283f2afeb1fc53598dc694810ec88a3c831ac9..5d7d97fa9818c98cecc0ffd40cb860d70df7bb06 100644
GIT binary patch
literal 13340
zcmdT~eQZ=k5P#Q}Qrc2lC@o?wS5OL4^b|#_5DbWl1U*6^egNgJ_pUv2y{mWEqg2!b
zLW-yXC5RBAprS$u3TXWzP)V$43`BwwA__tXwu-GZjUUk9&U-i4H*+ig;Xlhuq(b`J
z+28(Vc6VmhIXyLPtY&^C+RrVSmoCS@3@u-aL@RE+DNwt}rsZlY;=hGI*E}?PhVxOI
z7S*0A_2}WsQ0ZOv(h1%>OUvw~-e4#aas?`aA&(CKexJ)9*2TYvt6jCa`1`2QW%j4-
z|Le<awZ9jte(CHaCt(o!aZ)NWNH-X$I{%ihwoGmAI?v|6#j$b;&Oh5!z#XhtSB1D!
zXjFv<m;8AKS!5<ysH(*1xvLIzk2=AW*zUN{gB<b%2T#;fQ5g(`gMM9IIo|pG$P9Px
zK}O}x1s7gGDg!7LRW(`u%gm38m!D%qax<Q(K_Y_%5x2ii54jepuZ!dTgVB9W8yKB;
z=iRs;=?qGyqpCI=*2DJ=BeQdI>mekQFUVB6YJ7nz^`$u~0_KtOQ;dz?bz&K^8JNUI
zRb|qbtex__{|w_&a>+RYx#S2gmBE_Yx`-Z9cN;TLl}^T^e@FHTDUWfg>S0__&hwMy
zgLz&*@_;iQ^-z_C*oeh${2No_vzZsBBMXRkudiN*6H;~G+B+>fWlUo;W0P_4^CQRx
z;+?WlRT<+{8G4LyDKF`K9l5|M>37veg0)wHG{cSk>nNkMrJ!jR(t%Tw(NR^K!sCbj
zn02O&kr|&eXCsm^?)NUYUyrD}6VELNA3Mxg6g*jtBrY5GdxM3lO1!u(FmPGRX~tpw
z?(8p-M1SE{wIN?X=|gd~aqZg1XbhWtaWT@!>ZPHo7Pn;VD0<Ap@AcLjib0|}7*IIN
zl3!2cB$U0I$VrS}RaZ>h$xz}pRo%&9oETrTn6N6*4`KpHs7gVu!*OTDTc`t6AI$rR
zK}6ld!eIpWr%a9Fi@WYXDo}l}P*GJA^TcRpM67NFcf^{Y+b4=aii;xmFUL0f%_vF|
z7iIUX)grq+cac{f@@M8XAeUUGi>e-0)>t6!haFe&Fo^najVlznIvs4dy>K0h!l@|h
zU!5c2e)0)Z#WjC<I#PiR%%X~_?)CEd#glHI&r|jmSI=oA0?CIr<nvT1e9wxtfgXFA
z9N(}0ArDzV@?o-2Rf#z{V|Q=t;DKIvtZ@x;faJp)()9+FD{`BS<YPUPB5O?gUq}P)
z?Qt5aYGHKTdU!dm?v1+1NCJ)zk1t%k&=sy$S&mr#&ij9Ah%h-`o3<wlnLwepmx-#1
zG<WqJt#9KOt&g|1H6ah!aBF;(q2NMSRN<}ao|6xYOXE@|$cI}yJCF#3d4h<ldKee@
zyLo!<9K5O<X+WtLqC@m{YFw4#hr*&PFp5`AOq3n%W9~&ZaP_5ZR8_`oi1Ks9v8-qx
za)Axl6I!J5wxw-{{`3MS$fhX^+mQsM>jnu`b#NNFA#WF+sCA!03gA<^U$2aWe3cc|
zLASd3x+zDD$?@%T^T~N=<)W%8dn0Rxq|M>?UF%~S*nX>A4T=k5ChP1qO?XHN3Gz4%
zRkbiK?M2&}SM{Bm)`bybwhJQxJuFfw#m^A!*(Zc^y~@}G{DUSU8;EzW&&ozsWsFqh
z?N-6XmNGV#KKp}beehpK+y&uB%m#nrBS4OVr*?=+hhL0;G1~$0e~~Dx0>?l^A|@LF
z;%CgZRM--h5|7<D5}uSHGLs-5NI|5`B0S?lTpqz?r)tTMy0}?*I)(571b&RdWwznD
z5`qU4@a8m4{&<PohbKZf#2_+6uuswuvN^!B92_8@3@|~6CVQmArvOi3aD;(mgv`Et
z1lbIrY>N0Cg8xq7>4O1o8=ic~v70h1SfilCvGB|SvDDYR{d%#o8N<^CMA9`Y6Rt;}
z2AHQiw++t;a0I$$e<zI~n*p@&5l=m*HA~|iaQPIVZH_}w&si&0L()X&9H3Q=1JLzz
z_ZJaoX<Tz8w1*K%V|A2p023)=4J}#32@{DgX8Tp(NQ0J}gf=Kb#R?_9m~D>;+c;Ea
z)9RfRSf49^y^Tn2@!x?H#Xe&KrG5!5Hu+RjgsYf9qv3WXi^78wU(EIe0%Z)Lm4x=_
z4!BbIg{2!K_akWEAe`=ivqfxJ;4<6RMWS&~EZjP|fx;<6n*xnfd^^WW*BV*_h!=7u
zzL>4KfZG4B+0&Ja6>8Qpuzcm91dhfjeEJXym(Cr^&IqRqUvLe9%cc&cUIf$NJt@G}
z!Y^NPD6b-t2JhCPh?H4`k|yG4@cOO=oTb3YO+pzFp)>{^MG2_PCY0_FNagJoz~1tg
zTpuWxA(|dc`>(U2WtO2tg;*+1W3g~7TCn1Lp)7=8x>U|#7O>1NlwuG{kETMq#!4A-
z)=>Vy5ok!AO&UQq11LElo{F`rM66nG0fMuJG#`O<`-%>a17-FgwMH17Z}|vKl4x_Y
zkj^5W`beMaDPCsXdSRtf9TsSkP;$eNwxMCVP_NvOfXZw_s)RtQ@#7;!IFM9Bt}&!1
eI09X>(WQI@a|V5k8~iwJoR%lHi*E5-n)VM<?cd@6

literal 13614
zcmdT~eQZ-z6n}*=#x}+VV?&%<2gvxCS`-l!gBc<sK}yg?46wE9>sr&b^R*i=Q43@N
zKS2p1C=66o2th<d5rUK8g2rGVQ$j>V7Q|uZCJO<D1@C>`eLd&&ihuae<q<O4@w?~#
z-tXLx^WmJ{Gbvk(J%!qDjj2~wun+uiik7WKYRhiFHCVmKre&Jn@&Ctv$Dh>?KRUxX
z$EMY4PZfFeaD`EHx4mehcYIN?y~rCfB8Dqi7BW0K|Na42Agr_R!#-EF&OVPAS!{pW
z{=c5oCi_mq_sW?`PQ<|YX;M$YAlYP~>iiqO-aKVbXB(OSX2<hO#Qf7^3b;cH)m0(p
z3z~*icxcI`7QrIbVxg)MBj>I>cwxjzqQo}G`7XgBi*fMOddez7!Eh*`t1HL*e;%9R
z&OA)0yi<PuMM0$>rlP7Q^}o;hG{62VA(EN$OqC!qkP&eQYIMW3NPS%#yARhMXjo6^
zd@yg+=Yr0FL^`T!vwj_ajuJ9EN}7%cGTDqwrK`#xtW;l`X0~7+n{bM-(K}Br6Kwh?
zuu)Z+<Rxn+zYu64Tneu^hYBtkj7vqRs=6kk8|rRju~Vgk@aWr~zCz054psFquPANw
zWchfWHz0WMGhXPSDhsv|v)%X)qQ)1q&QBLC_<HyH7wY_kRNc4sPfPDHdifs0Cgt##
z#{?U`-Z2|hl`&71!N&=g356YR2`>DU47jQzq3Y{Enjz-?)lBGIN^UQ>79C|*e|gK6
zHxAi%5;~i68fFVR{Lm-rsOoCDCyrd4-O@_PjLRt9Ajp{Eipw3)BkCS3b0_d6^DSYK
z^Q7;pU}1(UCJR-Scxi30|FXu@gu}XB>0b#BeVJQT8~&iuXZ$Mj7P*zsC@8tSSkOp|
z(@<55F)7>g9{12N1zxyJ624GS;h<4|+me$|cC(d}7`L(}AGwpM#8_3`$zdLV-;gx{
zmFUCQ1Sg>?1-T9<oMrC{9e6S&cD*u*sC!sA%*DNrsF8p9!@C3(o=gE$RMjMQVw@vH
zpj+`PZ&k?cXSprKMUnfLW2^l(AxZ)lW%sOAELcB#nI=-QXJyq1E}29ZRXwbDc@DcD
zwqL`;_^J<Axs1s5>0m?bxod?el!~(c)iIpkPd+26xaQX<3o3jA1FER%Uaz(-o^<DY
znt^C^b)6POc<|vh{GLjM?^)4SuE%~N#}BK1%n~ek@DXF7suHCcx9r-`P8WLa@#U)p
z2OfNQ4PCEOIl;Ke3_jKoDbhwK|0QVfdwVwxRkbh+h+Q<hSo3yGi6Fs`505|WTi^=&
zRF)%}y<_SxbrB-Ro6|l@6HIvCI?hB@MfP-dH7{(X7p=WpS{nopzTsB+D~!+rSFOTZ
z)qOwDWS7RJM37ImbhHa1e3@HBRMo@0z~4i|bLYU77X%HSx#p{bm8z;-73_z?qLiD-
zs|F&<_H(1}7i{>|7qd}SnOJ?7o+FNBc?Sd+z5#oTMJjJw+BRNpFDHU*oV?(iAi=|R
zlZ2`|IL+9QRzFWxyH5!U+^6(_UJ)_;6=lAVTitj)CP$RW@!fOt(Rm2DsH)2T$m&5!
zrS!fFdxQA)Tj{D(T##6>PMU+lg9_0i@1~)u7UrcrZyWKd-cyn~#R`d4KO;ds%t9%}
z&k*g|Czx}+PS^wk1MU@U_<HyHAsbbdF+-8}niv;b53WJ%p<RsKU$Y-k8~?ZHX{0FJ
zIS5e)O%#6%6a!aedK|(mEoHWtC98LjB5{XY92&Jf*h3&?7I9Y^#HIJt5_{CBS=<Q*
z;m0vtW*c{3LGY#|P2P(|?c<IoI7Fyd!Vt1K;4ULLz{F%t+H*vwfIEBO2&uj42(lT#
zv}r~h&NTm?;c@>1wT(Mi;^3%lV+z2U2_=ffT_X_d?Gwk!W{f*EAhI}BBb^Sh)1BJJ
z-4SqvzY|7~%>Z{KKzvi0Ml0a*Dc~*uIK&#Z@<<WAO!@|K<sA;;>6<Wwj0UcD!vV%H
zPl$lpH+_M)!VHlYEu_pMuIfVEzJ406@lunxk_w?qGcBmhCUkJ7j`c)sQ?nQ_UdyBw
z{~eg#UjU`T;3}PEkS(dB7SOEOUCSa{1lAL^y*8lRqKqM~Mp-CkZw@;}KtV_Dinsy<
z;ll<ZxXd<uNsOHJL~U&hoLGaQlyRlQg0s2r%^`T{yT;W8h_BDZ`2U(ca|Y{)+GY;Y
zU?y4q=5Q9>LbJ&az5&CfbH|x$2tR}2vZ>>2F$C`z%v1xpWBST*h87|tHwvW8BF>6J
z-1t0>136M^5@#YI^lBU`vx&2R5P0Y&c0VAwKx!6e+#vepe2A7=##t_iEiGV<g>zoi
zFwQJNaDg3wWp;5k2SR^kP@D~sdnL}Gz!7#A(h+1cz*!53j}BpPEuO=mtZ}9Q0;de^
z2FmQ==p4dQhG~*motniFF~m0$yv#bh^Ri>pde|N2W`2JHF)1~SBR>ntmcKsSg34^-
qXbS>I74aPxMk{iSafAa$xRfwLYzDp9eNxlLvOkZo3&x=l{L?>j*{p*A

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_3.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_3.npz
index d4f80b7b4debf24fb0c428c6bb5bdb992f442830..6747c3a815dee130ff89b111606c0296e468353d 100644
GIT binary patch
literal 13600
zcmdT~X>3(R6uz$uLMhNfS&D#<MGCTS0kI0ih#)BxL4pd@x3&-7=6#RS7J&k4!KFrt
zK?11|kS(%=O_U{spdlnQhzKG}!zLn&AP}rTbk2P}xA&YkpoxEmn~<gr-<<j8J9B2v
zIg>jgF{zst``T)I_uZfJcg<H<%g~~QdA+*_!^Ji&O`BKqzwqaRk+0<BzG~A7wdq-I
zPsF8X4YX%vdk187wP$%ldQ^7=^Fq4Y1Aiat@JBr2?~wvW*du=L)VZsDhW&qiDRcH5
zSoXrUi-U3rgRK+2eq>O`V4&*!x3_uc^62f?*!-9Ed~Y_+KQ*R+GgPFm3N=olQ57Z(
zso0M!QcM=ADlzO#NyhpY&oCuMZM^maa!3~(+=cEuS11?>`912&F?8F_`$vktXH+_8
zRt!ffjVKjWHA(DJ*6esC-`zQtD|aK2rh<smKh>i<iq+TUWcAF+JENPKE(b>U%SSp*
z;_0ZWO&{Ys!N{z0&gqS0G6b1?N5B`%S6`Z+EANas_XTH@T|KEivS}R0Mpb28Y2%;X
zvi~eortQ64lS@Ov#T5#Kr$#-xx?wDKs$BoCJo>1rhnz=J$E11aTSSk(%JP6<d}le+
zW9-QC5b}V#3i_3*Ean<F#@`u>X`xv&kOjmoudm1hC%x)>WUTv{s!<<)#n_Cyu=Q7D
z196M8QB|4d!n?+tJH@!1a3-!qE^ylW9pPvw{0K<1WD$J)Lb+wY-6Kc`PJ2d2Rc)dR
zS|p8Yc$H~0`D}R)BxB?$4yWG}Rrf@>^46e!lfK~><8=GT!^pzOQw$cWD)E}J<N2M~
zSNZyR<j_F4Rao~0l|I}Dzj5JEyAxkChsvz?+fk%Zzm|roT8Mm6B#oCD3F}SEAW;ws
zDx59KuP1U6kJugS>gG;ci8~oeD0{(L+Oo%~4t4m6VO63Y><J*D>W+{*(@zPT+Mo_l
zMTy-<3?k|t7JrF^aPhuFY;*5evUDI)fhvlHimIB-{`C3x{TCk=rQnVj2swSCsHM0l
za{qew+TAx%lsGQR#;ohBz8leh{&D7D8KcunkV_iVMO6>$YGj5yr?Lhv*!7WsLytb1
z4t8>beGQ7jsVM7TNk0}{>e!11utm4q6(JP}U=~$Wb+43T%frv6aQB*7mTDHXAo=j>
zK6k#t_pH^6_t`h<Tn_6df#f5`LRBT?;dfruw-eB%Ao=j>9#4tNmBsy{XL$4e3Kn^-
zRTH?k*U(T^3wgPu|IY4(s0AD!ZeOHenj=!6vK)JiCTKa6Blz~0gOCXnNNbs>s>mOQ
zbDU}8d68sH^F7JP0|IWq=h8#d9EA#pD!ZsDE)0Ic1etO#wG4^CHaCf=sz>1B-8DB3
zUt%<R^~^JO2$XtZcZeQUz~K@<6c(jaG<6Dhf6mxsu3gv?MS-g?WuvMxu_6{f(H$S3
zzJ**M0K4^KmBW^{_J-K-VJ67b&8r6>2}sus5~}K86yd6QtI)gtN;XmepYr%UuBh&F
z<rRdS>gMaQQ>22)@!1DeW_t?GLn{|mRWY7#Tzc4}APB$tjuN#6iCq>o_9|%pOSkKz
zbHOIBp`of4JBFtwbSYcOylT_=4Reu1tX&uldLkl~Qv3{AA@ZnW%QrGM&05VGf^1;F
zdwo_mswxv}NgWhiYzf^G>GMT+o(TWyq7RCnr8f8lA2V_kJQ+k(9fI0xpkNg^2A=65
zCY5032wTFE`Dl+L;b|NqQwVZc0wQG=;W--O(g`j#QHy_^#?8VLFoZWE@M9D%vklL#
z5Zsi2mnLcQM_AlGJaxh$nvfwv$#Fx-<^a!&aDWUlK(-J~_SlF|0iN{W2#v`IDUb0H
zWHW$#9q|nb{;0sy2Ls&pgRvELEm)(V#If*PL~hqx&w@328ypKyG!RSuw7YOVoU@EA
zJc~diUGG~0NuL$OZU)>oB-J<qUGKg1`3SNZK>Hu@)a%Lx71lkMPXSu)I0W^&i4Ee0
zkj(+w+&BPTzo&!?L@iBk&K_FJh@|`cx`~uogmy0C#2n49)V4+JThiR+CZUCjP_e@1
zS8AJ{W<q5)t=>t2gGH#Z^aZ%Z2LqFZ;xVAqr=dM3pXvb<D0OJ7MdAJCS8Dr62y9rC
zF@!c0+N06)W#QbGPLAA<p!I`r8a-PJ&$Pg0wyjg9``{M=j&Hv3MTQm!8mIV8%@|&~
z*3ec!yzm3_E49sRPVxUXd%AMNT4>f1vV7&Be2&H`yh$d7OXm(HYlPE<KTYAXsY96<
z!F2PkYAIB+6pi_kTP35LH}E(jWfq|viWceS?bQl!mf|QkX^ob25B^yTmDz-{AKIky
z?rJSA2CN9k%|fXS(ezL&Yhy*rEJJw<u~eK<PYB1N#V&3bN=gW(OVz?|0n6+{83&>C
zXsQxWS_YAOC6rEZ1iGcxwdEtoW&q_1#8a_~+lf`HEnaZeP$EDe4PVc-uK~*JL0XP5
zI$v7{jU={mzK{wdp8Ci^hL>5lUUsQe3!j9GlO-ADd?DpS!*ro0bu^(en~-K9kZRmM
n3nH#HO_6hk)CNbOYjz`UgxCy{joW`;t*@3N!o{vm5GnrwRum%g

literal 13874
zcmdT~X>3$g6n@hdgi@e|LMdXM0#X_(s||=XNQ}smLK~2v0(F)*?Z9l#3`40b1E?*E
zjY<p>NQHn1M3w+W6oL&wB_uY82qGY|r6P;0Ar(lx_YL>WIj5Im;-AZF8km9ap8LJ;
z+~q7qV-l0nwb+xb?cH~8dKLS?e_LtkS~yZNu&*yL%c7+k-|_#)|BXLO#=cTm^r}UR
zXm8~>^^hZ&Gt`<>;2M&XXU%c>gW;gfSK<#kb^iSbn<u2R??Yv_fX+Vm&dsyVvHq_o
zc|qNQRWI#m7*>QB)J}1E1cR0a16Ak0GwYp;#XGN%`LF8#-h46tl$Zi`f4RCU#C$>1
zunLoh*X$Q8l1&z>DlzhOMf#?fPZK4^ZMpKZ;E={RI3vyyhu;_SdvtZ>7_sBVy~E`{
z5h}TvHKPQT_Lz#Qnk4qA?0l@AuI|G6wR;4SPK=1%GeZyBW~r~siN?9pc89kST@DoI
zmkK%^o6=ELn?c5NoRHaQUocRRNoQnAZC<ypRDEfFtG_+|?B|qCLF3dOf=!1eY*bao
zkvi$w?fcIVWwP%UnOxd2E)KspFe9u7)!oKor^?m;%43kKddPVs^-8J|zJ>I7Mp+(w
zGrql==rLhzwO{bycNO7Rs<K#U+!+5REN1%W%@Hj4zU6Y4>-?lweT__TK6h%|2VW63
z6VKQFDcJCR3$syGnGEJ#<IkQXT#nll*9tEDwD;HoVSnHekY>d){?H3$esS)&=IAK9
ziybMy&}%@eKZrWphuk?V=<v%6QAbr*3oq%CG_l=fLT1{T>VATZ5q8<^9zCq?0eNZm
zu>7gt(0hKGb?hO*!U($z7OE=onz4b=E55t_^>czlTjo}QpxdYPUFC&0&L8Z4{A=P+
znXUgiB51UU(@<3l7XGpr_#z<zFOCL@GQUsZ;8%Xzl9Nz&vz3#$ysdXFawkIxW$%kC
zyY@TTvn4$Mp%Sh6n&2c<T@i8}eofe#C3N6Pq1g4xAfoPJ@ehk{m+w1B7Wb|dD~Ady
zJShaIsH(~QPhNcA)6m>5#jm_xzunDpbc%~2_pf)a+<8-o(u9k$d)C!2z8^Dq(J|s+
z>BVUkf=epVMO6>WGXh;2BEpS}ulkVJ77Ra{4t8R*b-fUUQc>2wl78V42;IPz-RfR0
zsPGL8sG_QSB_CZKcs`lB*WAh!Ge5_J4_DCbELHfPwQl)7>y{vu11=ICe8gC&s)T&|
ztvdDHWZ_ag_;3Yvy+Y+g>3&uMy>V|1*?D0Sh~L}q(@<3ldG=@U?!FPB1wTHV?oioG
zTc}KBIqHm>ZZ(m^_x6{=1QVX`jWbbIk?V&F?WvP!l4N{FT?@g3Z@6B!Bj}%LizvKR
zSy_s7sqbSV$n?7@m4XOg<|YwU_3$>_S%2-&1wvy${}OYB@XR$|9jxT$wK>=y3X2kD
zHLA#-&j_2$4NJQUQTWvtvr$!<SQ3k#=(dl3zbUxz4cHl+rSi6=ZMeo3e1HftW81nR
zf&>rO4HByAU?kxhY30+k=~989z<o;h=#FsE?I<bp+trQNW2Z<Bk>k_Fr_5>_KMx@n
zRaG&%Q7$ys<HWb$Qd@=Eg2XP1w8?4F=v!@sbMZxfpN6Vh>>8Dl(5G@O@v5!oHZK$;
zV%5*EPY<zBO7Syf4U40WuHHh}bnZ59xM0KAyUPvPsH#k?B=sZXVoBf{#2(s>DV$K#
zq89#l(VIz8xC0WR_8KVu7AOXH9YV|kW{X)edk`rScltr($OM6uS;XCS5SNmuHSM*d
zW^qRwgdfFlnQh!f2Ei+nG<i=MwU0Zu;1K>6O@@%o0e4Hm0Sa1b(%vaL1>B(oM@W8*
zjv$)>jMv-6;mo^^Fg)&mptc{3t!V|YMnZ{VaraByaMa>z4X{RSgJN;V3B>kIj$>tP
zahC@~-egGJB@w$BP}?x5?hqe<y|2A(=m@eI;BJQa08vYIibkvF@+sgB0yxB!woQkS
zzI|M^hePBsCy><e>1)81ayURE8z2no<`jvm(-8S>dx4a_I9w5ixP_@2t`Ad_xC#rQ
zqti^N%qDbjrmp!!E$x~1ptL|OJ{Wk|1WJX$6+Y7-bFXC`g+=L_fEL*TGM}hrDmzNd
z8XKJ`u4I`gW-q&waOY-t;_4BEU&8Q*y<NPNYCCI^`VE~su986G^D_uu`mS+h0^$q1
zVEn^o&%DTdqLz$I4Q8R`ix_9%O*DJ)X9!$6cbxTx@Qq!Ob=lN$rWt}Gk2BFh-kH8~
z=w)ofG@q!YpqoI-EaHr+31e)vCpZq|SE)(3;o>#;LmVozi8F`L=He`Nw;*{$Y8Gef
zAbR4H5G}KeGh`5(Wo3?q^JUa9&PqXW0|d+L;!F^PZpzk3CPnU*IQs%enBAR@Ae#Zs
zctHHf9_+2f^B<Ho&N4t?+n)D<GJ80(hp>YT24iD6UmQ(C{EDYAUS=KMm)Xf{KI{(D
zi{HIKJWKiFsL@2S1@Ux_36<Hzks1VEXFwe3$T{Qa2#!$Kn~o5hK?`;l)wF!}^C7#V
JEY9Vh{sr0^<XZp$

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_4.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_4.npz
index 0fe92a6131fc6d8b7902e7a18bc24579df8b8649..263c2cab078326e5cbfe7b38cae817c0a4c7063e 100644
GIT binary patch
literal 13600
zcmdT~X>3$g6n@jvQrfb&Sju8ck)rI2dl8pVFa#(~(16fkIx}sD%*LB(p+(75K-{n(
zA^eg;(3F58A`oOLT8I$@F<3!CEQ@RcQUU}al6udZp6NShZsmu6E-!(GhVP#H-S6Dx
zEP3N&+YHjeU#7MtdG@}h<}X1@(Sl{x;e);Ya*NhUd%O96;m_q0r%cG3YSGHHdD#wU
zz^-RMlaZZM^i=l1jO-$x9@K4Kt50`0;rF>VcfcurA1JZ;o#Nm9A03$SM#lg85_7lR
zxK}^-(&#+GVC#$`H!_Gf7^ph`?Y$RWp1l1pHvct4->t;?Cx;a%^vzXQg=VMFs0z*-
zzb!x(i4hj6DiL3~;-&Z8XPFXJ)~o5rp|jxND05itK5xM1cB(7KLF21uR1Tj^8iiCk
zQYxxy;_b5F>jP`}?oORDCV)gz1(8B`sZ+O=tFOyKL1xUhFPSc{b+;g!rmoR+RMiH~
zt=@}HFfyYWZ@q<VQUsY|o5$rXR$rPUeNNn&KkF1@lb2b!3fXjtVxy`uoAi=pS6}BR
zS>``^S;(b>;9~cA{G~ysuI@1wzEv8TCav-qp{gEo9$#1rJW@SIs>)+i&uNZl8xC_l
zmX9TG74$1rS;P)l-0jyNt}zxH^v~l^4LG-oTyvdp)2qHmo@kh~WTm%`u{rXIr2yH$
zxkcHitxN;sGArMji(KHgcia3ypZ@`n=6iA1-?+!Gl=KxlZX+GI?HL_awaJ3(an}{5
z&9wY=2at>rr`QVJ&Y-$CO3s$=%4(~RGZs~wzdD61j5x($p{f$=z8(MMJ1<;h9EN|G
z)B`!R7jEU(U0$UxcX*<Ve!P~^`19;9-yn^o78<H*amWa?_^vR&Pz(|!KCi;jqWpOx
zC-H#2vE(F_ePG>RiFU9jz@1dx5poKt8|sJRwuUT9_&s6}QTMW_txg|uvhPuLLXBBi
zFa)VU7R5wGRZaHZ>OZ}z?kXc<-W%{n^!N&0BB`agD02U5ntJIc6eWs_vS-%x9WN)x
z47l(gx^!Z?sOn*IRm>g+yFTEt>A?rn!K$q%_M?MwD$4rTF5>_@!~83ye$NV|0tc8$
z6;<8KYHSo9vIj1d#vl<0K8kdgqgdg0R+_j?;wyjVa!l@Afh-{S2(wUCiGh$ixy_ZR
zPP`aNEkf{7q&uAzDrXk+L<BYS+$JW)-PuihQ3`msH`7p6i)%Fy37%#omK3gDk0jvw
zaJT{`b8LYUmF3XZUq3RTa4BPQ=6L-bWC9867AC4HQdI{pEndtW@#;=eck{UHx^IrH
zOyQ#{bgAF4giqgRg4E>R+=GI^HjfZdRgWuBp}Ne=hmA9LwnZ9{>V@4QYE&MZUHnj3
zl%@MJL}h0U6J^iTgCx~U*{G_FQER`z?~&5Ar7xl~Z~!~>a+Qy*P|C)!rz?U?kc~Z;
z)glQ9*9{V?>X6pvl@5b8pJNn;4Yigb1qi2{Zl^t{yX@8yU!l73dgy5*yUV!jtD86z
zxxjsB=Ax=9LXwZJ)$n^{@78HHWCF);v8_UFLBiL19uuU_zv>U90h_#;hN@cJ6=jd$
z@^y@aJ+yx^k_eXzgI;Gqgi?y%A>pk1M#d(!D*rsP36~4aY*ba|WB;hcV{3mDTr4qz
zVrly#v?s!!gm7lU_&a2QAK1*uQP47osCa^^Gf=P!90P57h)E`xH-#->DblpZk<c24
z$V7r17lTNdMQBGuTxWtyj@6=@)3{k^0Yi940zXFKGTYF0h2T^IUfo8MH(_!6(CUOk
zbR|Rh;-ZF-%>mkraDWstK#mYi)@;P504+T@LKiYZVp~3fYzC0jLVO2;KPvFFVSw9i
z9lI*Qgf$XM91HCta=S(COjx6~!Lga5MFX+aPX`O<!#T^?LR$nP>3ZK3NZM8qei?Av
z(29T~(DklM;v>jr0OfzgQ?L6#P+`?``4ph!jzdtdo6$aM2-zH<%#8!k^?OXXK+sh5
z=Io)gj7YlA8zV@WMJVSYPRud#g)Cddz9q$7ZW2nU2o)<F`9hX?ogz?~O|y4W;Pc|B
zG1UdQ#nypwLh&$A>eH<Q4@7`+hc<0O;r)>>WT_GY8x~~@p$vsfLr>3q;oPQ5j@*x+
z^n-AEdiD~YX@bjao4L|`a9)6;i!XeUp~Qj4DSmS|hQIGx3qOc_A<O)SDE@x4rz<xu
zO*5yE<tqp2bDTVdckNE$(z!#*8sT)|f2VNS)FDlbV7hs0(uHcKq%mLe6p@-mB;CB8
z9*C4#gmft4=;j^P6L6;FC^rcyNQBZo_;(9bW)sqW2&D4v?j;@uED6ZXLaGhX^io^g
z+l-c3hV&L<sW_7!7LG-eUEDCFln_jpDlNkVmf3|g4npbG)F7ZV4I=kSNS)vabW44f
z$w!dQ0MZqRr(%`&5v$gcyx^=MMSwthd_9-d43yb}upD7@zLvfk32fzjArwYD^^rpi
zFS8EeC!(oTD<6S}lPMVGd?DmRC|#(6ei5k5CWKiCq#9>s!-;DSQ{<c>w80VRnq7|?
XAv}XP<MlsM8>vkY$Hngca8mvY=Qkw;

literal 13874
zcmdT~du)wo82?UDv~_P?%Bsbbs5`q>WLp#yRuUFQkJEF$(;hiD-#INhlT(*nS((VP
zWK&`bVe8BgLs~1@#%#noHYV;X!`Kk1OzeHX)Au{i^YpD|**~vOq|T||`@FyJ_q><q
zk~^VU^JFdhWN6!y<{o&Hec*pvX~|l+*gkBKKe)iAwKu=x|BwHUKdUEAotQh_rWI?i
zX1er{)5v@#Ju}<=RAyFsraNGS4Ts+zFkCwSKF8q=>FoPZp(CiX&;9ymrN5T`zn+Ag
zowx4S%)c@^7ctl|%k32m;!Oss&VN_hva6GK{YmD(e#qOUV*W`{1@Z&))m0(t3z~*i
z&~N>=M6gJ(Sg5K*eCe7O-tk@_N|f2JrwR@o7zbCe%kB*LLjkX@t{jKWr-o2DayoI8
zpwbRgQB@Ov$0hp?t*5IyW$KuaAd<p}<a>*B!?8epU6wL3V|IQ?ba|zl?SY`vsUaOz
zwc-0#+OkuG%&41pUKeDN8JPly&*LvpUz%gRPSq`%bC$5l%_v<f*mP{bMpb3D8ilK_
zFQhwJ#y`2e1(&vri!<O07KL>~-EAy-s@x=+G|FSRs(Q$Id|}J;N%a_^Dvzx_X1Ja`
zbA;-#dMvuD2)|O5MY92KbpG|n8-&Fc<MS3m4Zd%=J@a*b(yP8ko;dT;iue81gw3%}
zY<YqW-?uOuwUs$TxXhVi&k<bsY43Fe!-3!<AkFvetiN@i9w~*3dyaS*9c6d1MWaXN
z?H+%TsFS*8_gz7UUtWkhs=8Wle%kN7M##*Vvgwc@V}@Ohe6Jo>_khga{#|ip`ANc}
zY};371q(CmGFhmq#HMd1Jo(mhmkEbq?<IB@9NI9q3K|~2(svbp;~G7(lF<0$!Y^M7
z8i_F)s%r6r88^~Z0WVx8iNb(i;ow((+me$|cC-C2B$T}`Hcg^6UlZJ&R9z8r3MpG^
zhKOa&lS0w!l}SY1!=kc0b@1sv$H@*gW@+AFL4_xU02Ng=*?*_s%(Ck1ga};V{L1SK
z<a=0-PH|D>{`Fw`m7jzt4Y(+~XU*I_J}GWM?L%~FPjpe$!{n+!596yo<Z~F|N7KQ|
z?WYb32cuM!^{>6=26mqKS8`3&8bO6`U_cdB-OFw+6q<nu)fUAGB0TtT8y;7I!uPDM
z>@<ll{h7)!xkHIy!Gn(|3ssfK;;Ep!REhG0%T}h82On-j*Gp7Rl;*MsYWAhAM2dTJ
zAM6)W@Oyhb4OO+cv5`lD=Lm@v`Rg_d68!jZc|wKr9HBy$<<K_&b!=k(O2Xv)$(lOB
zgy-L5OjK2*teW4nXl;7<%X?56(dTg*fq9N%g}186mA*q;eY%_ovN7j&l@Nq4bBl<o
zdR*fLx2v=odUN)kmVyS)T=UhzN^U-fll@Rwl$8h4S)pn@5v6MSVU)SXY*baoY#pej
z=Sb0pqUVJ&d;@kF3sl~=BFPnF&y|FUAQe4URSFV3TsKLmszcZ2)7lQ)c8O3JI>cTq
zDDZGf_v+5D;c?mv1NrL4>yf9;>@MMQpnB45!G)iPkc+CSFiAeTv5}r5`*+N62qt{{
zEpU{mElBiO&n1FX2iIN{H25N~r=hAA_gL8@ym}KM;fx%dEJ#GFpJBfqVxg4cXGk>b
zUP0KTluh|vu!&YbAsbbd`8YT#;lzfcjEgOfYY=^CH)j3U>_^1L|1EkmDGGN$LR7Vh
z;%|XsaMvNkEM~TtC94OKB5|i5M2?FSNSQ_4T?cVV&9sKScGN8HXoK(*7%sDoyT~AT
zU2{#|Q%3FM&Mi1ZphbfrWOKmXQgDFmcum?nMW=u}l;8*nE$Ild8Nj4g+ZddA*Kvl&
z{SVZ3<Jh&W0M<+>Q7rC$i5ZUA+^qrDtZh(i2I@G0*g**~tc)%0@_@+O42ioWqBjF-
z8+TT~5vmjE2(lUAZU%^dH%X(_bNLi-2LT*nR-1-HNZ&rL+QT8Tm=j29`1Cd4N;w>$
zjtvk7b#scu)oF;VYA2Ag7l$jt5VxeghU>%BB(B0j=!+dJsLUpGaHg*HL~QLkGGMF@
zN-Z`Htg(PnVHyX1&`DU7uL;oI#}<(FL~MEND6wj6bfUPDWue&e&qxvO{1BeFdIaIu
zFubX^%ifChL~J`cYm)j6ojb0QSa3G?(k=ww<hy1rWIYkv#I6|M)a;oTSx>~)rJDw`
z(DFr$Gw>FgP5wNAOXrTW-Vpv-DzYw{I?gmhaB+7gI><ZISDuWryAYY(Lm*`qaYhy5
zw8uCO<X5RloW+FDZ(~rIO`JJ|z~yP|Zb9;h)GW@{LG-kq5G}KeGh`5(md+dt=gX*J
zoRxy$S_qce#hD-ot;o=%c_C^XXJ6n53wzNKWHZ1S4~QSvo4vJI{(~CESq2Df)2ALN
zvxg&l2s_GPFgBL2LL5y){D+TYyv#a|U?JMwm*2fWJWKiFs1ZU3W?E30O&qB~;NJ}B
l_P|I-&KXBXaD;vR=m^mnv|x8pO&iJntYmkT<^B1me*uW?=Bxk!

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_5.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__household_type_4__n_residents_5.npz
index e8b4976052ddbfe0e616c08f07e243ba5fce40da..6e2abaf5f7127da8ad3727cbb784c7a05e23590f 100644
GIT binary patch
literal 14122
zcmdT~Yiv|S6ut`-p%f@k9<2qofVRaJs~|K8ic|z7K&4cJDVBZQZP#pf*WG1-5=p7Z
zLoAINz@+iPJAfJ>jS3oQ3KFBDjS@*s5ac0^$SXo10l_(Udv5PJot7W|ncjpnZTRNQ
zH{UsDX3m`a8J)XiYq2j)8}U+&^Ir4UO-s@u(c;HP`GZSrTB5eP`G4Wh_huE&%%5k|
zqT14Qw;pzd(#PA=CwOwxv+U`fKqwM&_=^J}w+?@Q&fyE|;_u;7M^G2PXJlsCU$_6S
zFMjis&;R-Nc+=DQgu(P}O*zP*tHD6k`KP|@e)81pOKkp|a^6~w^G}E=;0!EQSA}M$
z(5MQR*E<T4MZC#ERVAwHZ)6lzpJ7T28Q55f9Qp_j?x?%i74U}xK3!co%9B2u`bYV3
zM#Y`_HZr-_n^I9#le9gd(swTL=nf>OJdI5H3nEV6LOtYIqP{M<r)F1e^zUQ392&VH
z4e9i2O-EI2Hsr1KUAW!I$xN=EgJhBfnG#2t*I%N(H2Xfdvg7ECvy9Dvy5|d!P2W~*
zR8{7{^n^~2tm2t0?N0u1<kCxUaRthP3nO|+-82^4Rjx8k+T<}>RXyZ9F8=8`FV$m=
zsyuSmJhR|@!*5KF<Xsz6kO!Pq(63ZwVH~)st}qq{#@q9d1>`M{cd-sTz3MTNwQ4})
zk2eo9HY>)hPCz!0w<sG`mHEUt44-0L&UkIzkqhkhK1VPT2zCHzj{N}NIYwvy7Y8RG
z9oX#|9aXi-EQ0g#-;7M*ri130(zvHMoIX9G?v66ISGL&bxrg1p`$kWc#JHyzEL2sZ
z_S@*ek5Vo$B{Gf_Ek+JKg<AzfUcb_tdlzF@tYb75G@h<O8a-NQsH#Qme!`=|dO|Ts
zlm`3?-xlS^6FG?vcE*yEQ1*Z&S7Ps&%)ulk40n1$)tIO=ZXdt1z_u#U9ReFjs7gVu
zLsf3-7}NnuL9s)XK}6jh?|tblefx%KQKSN;APW^$H5t_9MX`DFLaEiQ;GkO;aC${$
zPH|D>{?#s*4wiVsD_(6v2WzE^vibMw?VZ<to>|{c>PlojrfRg@-@_n-h07eFNXHD8
zsk@e$H(X9d*;r|~S#Wk+4L>d>Uz&6gV+E42MHN-u>)f`QBlbO)S)k}cOTI@Ua2xc5
zyzUZ(557h4^j39(v9P9LxDCcwsH%iK(5GIQw;z>&+n^_;>*Xq!dK)&uJ8mtLV(-L~
z>qrAGQq43})go3S;RT<j$~p6q1Z*E}Z@6@kBV4Mo9NMENM|54jp2@MIx^Ofyffs}p
zCaNm(m2ns0d1~C(qsZyE%<BpT7CE8{r>eRkZ(e-i%XLhU%cGB7LqQ<SO(Lr5u{Ag`
z{=^pko;$N(@-U<UwReaP@n~4)aETuZi*gH2i_Sev6yKEB79txs`cgKkDg$-V9Y^`A
zNHjZZH*$dl><%qaIc?P$f>ba;R{m8~izJ}*V31H%ht=?$Q^2dcYZE7KM+)Fmx=(jS
zLS9#KX~3y&?IFi#ci7D2$onR48FGRB(8@(sRho>8A>T)=U0RTSOC05D3lcjlYOGCb
zOXFiJQ4k37W*Vw$5i10J%Dn32FSn|ZMC|=G;@89CDy8@y@+>sb?A*)PB#ymt7}-F)
zd%RXQsw#8GNWTq&i>*_3XWCB+{i5)%8~UL5Sz&`;u)CC_pobGtT?wk*K*1_-3`8Vi
z5(uVJ*b<h^E=rDsUPVO46Xdi`h?H4`{y@a_A-IIjTI+5>ZWem-5Z;@>Pf)nbHuS+E
zxIY1ZEMC{7U2)t#^q%1m{m2l3xK=~R=5R>#d*J{{WPk}mG+Fl-p91t);Rt=n2=Nc_
z5o9xf`#R!#5&W+LPdhlc?Y6NWcC%oOf)d9<|Bl?Qr@IAf6gxQ<dS(zy{dAOYKAf|R
zE%d1%lCJl4fuwyNv6BI}4ZR^a0$uO=9()AZ44@wa@zm?q2`a3eK|TfOfxscC*Uj(Q
zY6#gJpzi<&pzAkMxIo0xg}~XvTR$RcoL@DOGK=uOjyN$#^Q*Acint}O?c5~1X(Lpu
zu=!QkmL{4|nN6#AQs5+!YAkOY++y3nIH7n9DD~;Kf!~=xsYAmXrJQ565IAPhc(H76
zsv>O6ufjH0xVHh6Ee*WIp*@;*2MV9GJZH%r5Z=EKPSfrg3YXcoE)or(-2*hq3sifQ
zDSpvFhL?&2Z!0)?iq9Lw@KUX;^A`?ieigRf$rOJ-_H^YN1=>=(majb2?Q!xHzBPry
zrQD%bj&Lem;6VbHO&#jf2&P#hH&r-|rCQydWHf8sHIXulP=`f}G;7ok28))eEH??Y
zPlVFoUo*sn%4|Zt5rI_RSwqE%gjFB8S*Y<Ln(n59>{hhQGSt-&OT{@Yux4>e?if(Z
zLNHybooN=Z%r4ZA5K8yN;4qEVU*yK2W`iTpka}u3A3-()sFNU`iWNUXtXfOegfBPL
zCJ;!|-%kjX*@Joj!svY8eMloWYB^uHgCm~$$SV(1yv(}wluf0|NQV=f<rd8O!d(*$
z(}lXy0+rc>`yB$Q#<dxc@U8bFIcK<2;RtliDl_>Au^Ge}*N(B;Sna4t7qdn}ru+}e
CREDAe

literal 14396
zcmdT~Yiv|S6u!&5rG*0J(b~cm(6&&p3JO6G1$hT4)T)?b+3wzL*KBv|?y{5`$?`^_
zG{gX!MidYbd{IJF(6miKVxpKviKHfg@@f@%MF<%1F>`O{?m4H^662rYHVy2;H)p>4
zoilUh%*mP6u~VXEK55#}=c)?VvJd>Xo0h1B!UYeH^p!5LX$i)6{QvQP<IfvU=grQU
zZ_~osE9ovh=nSNfv!{=Dk4?|Ar@Q@uP{83U@CRHv|9+~&8`RnN!D2_L&OT>kX4zl0
z|F0)@`;<@r`0IG{#2mz6#?Iz!!Jv!5K-KxDyx@B5^qfm%{@b!&Unb@sXDU$WFH=_q
z(-$-it8jUfBTul1wOFXCL}mSrjQq+oM2Ug@8<z_Xy%+~q*j3>4`+|P2uC5&Ai62k<
zrTjRd;!0WnkD$^MQ&Cluw0(i%jhAS2`;(F<3L<?OkwWhxJ>XcPzAj@=&#Bnr+fQ_<
z9kw}5(CO2fj;h*hp1jW6bi0v~nN&GXkV#}@iX0^#Uy=IK?0@^p?xVBL5;pznX66bu
zy<4$SRhdIG;yMgpLszo2J2^uHmmZ9Z(_d1$D5M9}UB=8^<tovnO&+6E)kDtX;sy74
zsUD+M<&pi`lMBx`{6zFf+PfuL@Zh<M@GDhW7ztO!6~f}sIQwM5g0EX{Pnphldevhj
zYfZn#?`|F@Y*vn08z<QCbqljmRhbWsWcW1Ua>iqe5nT9g?{$=h{H6DRG{?T>&pATp
zPRH8X_UI_PicRI){hnV5or9m%j2Cox@<P;6)zvcddAk2QA(OYQX1yR|9J?HaUOlAl
z2Kh{n5iD<^0dxEB74d?FaqKc!sH(()ufsL(BsUQyGLGbz2@dhhtx5wPpVGNXCu5VZ
zBQzE^{#+$!bdS<dRSWaDMWX^HTn33^zfa-AuRPn5lTdcC{Vybx%@^e)sz+z0qL?t;
z=@C_9qRu!>og#q^-6@6#HYcGf1-T9tV^c;89e8ES%n=PD>h5@NN{bG=Hct-=D!j4<
zsHm#RfKJb{&70PJp<D61y~JPWVTDG;MUnegyIk(Eg*UkJrDow^t#na#{k?j7&$aJo
z*SE8DB@iD|HCpcOVSEJ(mN){Tdox(3?Okde*eMldW2NC{?%ADHG+j)(^u$FGD||5q
zs;KH-=XO>dvG2P~0!1HG^o=0GPlN7&$5o_o;+xNJ5-Uy+7H}Enr$Lj2s!GTMeOlA}
zgF*>@8gvJAy<FwWb;CA(Eq#DUQ9YsPx}d=iQY|!8)xxZi(E3&L@_7pc3BG-}Ji+3{
zj$pCMa%c~p9NJ~sCL+hm%Dhp63BM4DGEr5LFO0JYU8lx;ITB^RB_3zMzt|C0c&Vxz
zxa#8E&o>Z3E{{5PO$frn+#;f?9`BV-h&{1`UQf@?oitd`;8zJeI@ld(iNneMP*{{(
zJX<W>M?~>Xd3ljw!&6_(Mpb2aU3B+RddU+Wk@bP#!WUpyV2R4hR-GY8gb1?wxBLTw
z1TQ@pBvjR5Ex(=0rPbYa2@`e+3f!l3ukH*5JkEk*f1$dyhis#JV>^*!@>iXg3NCy<
zgj`frrP(+b(tQLro$=+j$WgAgAZD^iyUunrKD1g0!h^hphN@bag`kg!SDpOfR;3_e
zUPp&~dXOEZ6yHOhGA;?L37dpRZyXkEc)Ytkkd3O!+%cBl2FAtKfootsv^`chp{7M_
z{O_V!mZES=Dn!*ADE<~G21aCD6v8YmXSSFnt0|NsaqDFi8nI39AdoVPxZM%r;yP-r
zn;)rJ++qmfCoo)Q8@KgA@Vo4GP1@u~?c-KDIE24*t081_s738-aDee$G-)#%odRwd
zgCoRtr6b5@0MF|^qHw19j|`6+QmE~=v0J+VtWi*+Slo^jH5{?IV*u7Dc2X>E0fN|(
zu~DpyEpEGk$m<M=+g8lXfZE2bE^vhU?sNp%3~+l1#BX3BN7@<WQ@|}9aEJx*t%s1l
zecVO?hsa`1KxQGMfm;{g0DrOpLZFd>zCheA0Fkvl1yW`aU(rL{iUbW`*i)1ES{y=W
z_OhTdo6y0Ty4Dl1_3X`n(Tiznv2EaS3n&$)ZQxsdghgpg;A>86rYw$MWLt?jRpZjL
zy{WRuvz~};NZ%Hq?A74wJPXC_U0^V9BPRD@e1!(#)%_4$W*fdF_ByR6Vk_^jNiMP4
zqm1!W2N1keBz!$%nP=R4ClS0<D>#4VyVeu2og(<Vv1jgUJrUdc$r>zw%ilaM{aa`@
z`QUvRF6EBP?GXNW3WCd~j!WDS+%=V{4hr7wNyb)c>xtNoSxA{hT*|dzjP1sO+#)FK
zQj@rR3Zc&rvY;}XxMT@|sdkpskOC$(i_3%%-GtCG%eXWLv7e+d$Hav?Y8aQpAh>KW
z0L$#+5)_0^9HNmDj@&D8*$0jgKa`Fjn*lDhKzt*^gTf1CjmsMlxb^-Ppv)dFDL|Ox
z0Sz6><$Uom9^yx&W4z2dOw`$yZ#@y)O@>AXY04KLS1lw9h?)!wDzk}?h!D6UldstD
hh$ZKYk7aO#xx?rP<_tQsBv{kNu%8%4Gj%xs^e^fzJcs}Q

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_3.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_3.npz
index 09846422423aaf6bfa51138acaf274c994580ff5..7415163655517891a2521fc79ad3d78ec5c2cea8 100644
GIT binary patch
literal 13848
zcmdT~Yiv|S6u#S1XiF)DmWP0_EsqvyRpc377I{O!1tSU?+THH9UES`kcemRX1(tvc
zs1PNMsE9mbD34%66$&9h0F@sEkq8AzLog5#s$vifBH*06d$#wS4)Vi4!%d)};hQtx
zd}n6PIdg2&;#=iukuOur{KwY&Ui3@UGPGc*;Hk&G{wj->rY(#9FZ{WB#`Du{b1Yg&
zdp+Cf3KZ$tBdpn@iic<CTC<CNdQi7}3w*lM1;3wY_XJ$x_kmKo-zEN?(?8d`!1}+w
z<j8ccJ#8ZlMooEbBV#Z~Sq5Jo4ekGI1!FMlrHxg{ptYfas`DQ@Z|{_pxZm0QH$1sw
zG0s0F;zJH!rRsj9Y1EIFuN*f7StQ3;sH(*HcRWAe-g1E{k!OuxfE+pq4$hFXpvdP9
z_&hFk<<LhbH*E5sVpKehCD}-&J*A?mCW~I#7hK)-G9#kRz4ZbT=_H6aJmoIkUZuV+
zM{eZ2yz0<bj81;ljM+#hy(Jx0wV74l^UbR>&oDBRMhxqYWHJPq5__53TcW-+6L(#|
z^F!rX#%A4$+;zyNV+%H_Dr4;a(LXUR=C~wPa4GVY`OAYYUEO0$9-Z8mhq^I}L4-$H
zcc<2FM&BZO3|7^zYW33he|_US=2r*W?06M<K&*m(r7DY7vs3eSe##>*+nD-T#0ckB
zvAfa*H@)h6Wcwc{r#sS)GEMfqRg;36z_~@)sH#ll4CWD7PDSHT<N~+7$L<gM{11UN
zw-!S5a*;{Xt$OcYNC$3vMn_d`dY=P2O^nP+XVxAhW8^7zhsPCE_eQz4`I~9OmVeJ!
zY)cxOjx3Bk#bBYT5=}E9@Vdk}Os?LQiX7SrxAN<5uhN%$ZeyR;i>nVa8hdu{AB8m9
zHq%g5i~b^<zmdatg*ieoNR;}#3TKNC4zrp`JY+Fe-?hm%i8~oeC>vmftH+5V#8tK@
z%<hx~djd$Px+CPylvwda7t{f&D3N%?AfoPNk+Eaah4~q$nHq!Y4w5R0iHfS4+=Qyb
zjsH5OAVw_nIozVCrMM_^{|XMc+YbG!1sBE7EFK^pm~(6%a!F&lsOn*hjf0ElROW*V
zc734Ct_L4Z2Mg78&qq->6=nUarpH|8$ny>C02}vp!a}41Wnhyks=C+Z+gn7M`x_&&
zcJPF)NCc9PV%_a5Q8>=37Y{uH-sbm-d6Pi$5n-XK67u7B_razSs01V*#k$KiU**c;
z86!8ZV-97m_Cm-TrJ<@8@-pw~+b<4BE#Ufax&x&Z_CTr1augbmxF0h)4p&z$Lncrl
zZDyjXA{!>aD*_L+j(2^`jXdDMEpr#?z6yIt;iJknZ28#2OY4~+n^sT#0Exghj}cK-
z55eI?*12C8jr#m6(~t&~dSQ2nH>xswk@%soDC><<Zw+H(F26(QOWCNZjJyb6zN!2f
zR0a-Ur(UJ<u@yEl#2^!-SC{lSBmwEVK|)m>AR_5}mOm9HB>nv?QUITFd0a(7-Ca~r
z>T{@@uh+tRbo~w{N4GJJ&mkAM56xUuRpq@8y&abv<neBGL+%=60>^KOeZJa)ShvE7
zWn+RA{y8-hX}~6r(oj_kxCl>VZDS<H-kWg;NkpCtgI-raq*99CAs0XY<cPI)Cu8Gn
zn%sbFV80i;&1_Uv=1RYTiQ9Xe6kIHEdGWLX6B;bxPhuotG5!u);0Ly2auhT@%29_R
zC?n11C}=c9RBOXZ<gc)0sjwCd!P;>QH1{DUg<!_V8S{&^`f(&Q)FCq3yJ_IVmgIOu
z$}B<?8{#?;i^m17MN1nu3yot4Z%^PKwIXntZD`g)a3=zGBxv&1Ep8tgq;QCIGQ>c!
z=B)cmHV0@*!T~bK0C&XzvKA#i1xO8XgpOo{V{P~dvKc^@kN8xAUz4cCS|%cQE4O`r
zY+;fKEA>xkGLhTO5e^h<Z!lg&xLt@W5lj8_nh7go3(XXWr0cz_t;U)W<eZ^_0Y{+g
zy;Mx4Wjh0(J2VX-o_d|FoyOnX<x_x%dK`j!T`!@a<k_Cj0UpP30J?rnVt}COshlI>
zK^l>CpYIg=FM^b<J3Im-PSA{fVM{1Yqff%zBs{z#RA?0Y!j{qE#E8Bo%WRsxlLF&}
zaHiJ;Zt?!WZ(~5IPs5|0e5&sXogx;c4sEt5c24XITV@I`HGndP@OXvx=;@guT+8(S
zBljbCFhV#zJ<n6P%(i*TbRX1o)+A3he39W{1dUUCunWUW*BTxp5HDOP_Ju9^T`B%S
zv!^SU{D@{QJj+)OitcEf!cQ@{bnZ~-MmSyg_1%bd+0>!9j9|KX-Q9)grcyIsa<gP~
z^FGl7kur-=L`92q^IkV_rjjZ*X}+E49^CsVm^7d=n@}u7n^fLKJ;lw=N{8Gm6zC95
zFSRMX%xIZqD2gGLiqpX=9E+C7xM3(nA($@Jk7lsUE);(dO0T93nHnpe$i32hEz&LJ
z%i<%*W&lMFoB<VUWN)!*%_R@c8VU;tq{o-mCkm9=gJd3IbiRiL%$yF(`9cDXc<Ljo
z`ck~iIwY-#rc%x62Z56*h2?x9QA8+RC~I~MDzgd683L)smjsX|H*(I95a9@P&FXUa
X2$2~i7}5U_ZHTr+92blF!%6us3Zg=G

literal 14122
zcmdU0Yiv|S6uw(1w560n3sgYZmd7qoR0M$_AXwgnx?n^BL%Z#6+tuyvdUyLm!L6cF
zj2IzRR74&co~aEW6eK_Z2|oz0D20$lQHTf?FbW2d>df8F-E&R{_~D=75>j^In={}2
z&di)S=ir#us&%RsdD6A?e;mCRvk&}toR+GEN^>56#22WrXvxNR{NM4v<InQ!=cYSm
zTeMQ`Rh!El%-3xrt+r7GBW#&gTY+B>=}upcUw66r_Y<AopqqUkEOG|i?6bXprgee!
ze?1A2SzLe0ff$UM^2%DmV2H8|wjU|o`}q>WVCLMl6@oz<LjzUkKWyIaDTy)H$o$tl
zwxm+bKQZD%dH!<M{YcZWA5|^QdP1;BFj=Uo#Q1l;zuew<o+vTM+G>H|(2;R)mAZ2B
z{l1{z>sD6|eRM+oy1@5@inpQACa844R8-aE^_TX9mZx1JM6@}#o)<(qGa`B361VQG
zP+ylrH|#IIf8c9EXKY3GEI}uwB^_0@nOWEKtt&Im5HgcS4(~3=q%tyv&SH<RP<?48
z?)c-*cjadZn^j9PR|z(qTCh=78DsU2{)upbaY+*6lJ74Ll!V;6y4#pMI=L$kbz>BR
z2#vCurq-?(zJ>G{s;Xbr>O~*?_S$jcSNq!5yexR|SVj1isw`U1N*c8FGa7L@#?+Y+
zBj2|QJmqeF(yP8kw)}o-dS3DoqRF1OHzW#8_`ZeNsH#k452g{Ay{uuF;KEOPuQL$x
z2Oa=vZY|`|%LO9MqSTyS_oAchE|&IaL!UO4RGn_syZ;h&c<@5hQPtIYpX2H@5^a{c
zGE8lZYnL<6>kg@VKwe*ec-ru)lZ3_Q_;D#h664xsuuxTr#u+@0yhu1quHKO(IJ9SO
z70^9CrDK&$zBsB65*oX9?j0p)w2RVERg3=Yc5=f`R|O2X3=&0tpTd{l`$vsY63TA2
zauR)4Cfr2sWGJC*ycn*|VmXy7WKBSKisx&BlTdX<$aRP-`>LzZfhUC`;gvx|-NPca
zX43ijsi%n=L$>WlNg+T*RZVX4B+89@?NU7CE%xVmSdLC{QRMy=8ralc_*V-qitkx8
z-rYC*=sdwCndqXbhgBLI7ri3Fjf=1PV6jsVJ(vzwx~=<IAqu6Utbc9jF~{}f5A|dN
z%lbBUp`gOE+CUXm-RsirjqKKbl@M7ubiyV<gkL@ibdRf0;W(>~)vX4;L(dbqNciO=
z!a`Lg<lFDg{f#4q68!Q}pu64kRZf(iF;WfNh(p2TH4k~4X{f4&JZpXW_6s9~7X0{d
zd4fe{&R~(sa^xB{=}(9p2dm2$3no0@8)c%ZB5Nk_q6iJNj-?Io2p)XHE%xN={xWB&
z!dsPNc-6Svi>rws>y}SlCW!E5ZW2*d560m{#<^b!jk>XyrwJN7bIn%=E4dXr^VtuD
zMOkfRt~U@iu$sU_U(7~TW#l!5l656d3uX8Q?9wY#-nPQV4KYLn>D4tQMv&mwb%TVe
zI`D|3%UN3ajE(>M89{;jl-ujh59yx#oFadoy7%>3US6-OA#!vZ)9|d|!p}p<MO9Va
z`^eYn&HXgqt**~pA(-&(x6nCXZ9%M?_>Scug5>@=HC@o)i@ceJs#@@a@I=ODLSo#%
z*>?nqNcA)1a|hW~O7Sz~!k3>Oves@TY<!KA>jfLW-U~dCjjGCA?l(AYOOI2GizS9@
z5P4`nY4g|YN7%yuEV@f63iohA)PV@fxaLz7?wf?DMa){Ll)pQQ!M%zQGd{+cpV_%c
zk+?q)A`@B(q|74j$%D9K4A-JVkDA4Oa1j1+YXq0s#=U0{oENLfJJG0p-0ua47~H1C
z5VASo9xFIN6B|I*aYd&9uZEqX12CUD+Ln$Wn*qG#Cn5ZbIL+(;iJYy}_T90$@c=9J
zPuw#TH5|6sSueBMtzlF|s9hLYCPtx*^L2ogvBkY1QE1q*qn$>2E99JUKL#9O5t~ZO
z?hHD2+yepej`kX@xyz@3`wrj`y_kZeY@Z{2`?%H*hq&5u2-%Co^>sMFHyzl52i11^
z0&q<mA}f;xQf3j?ks)qEM-5k%sYzVBh0sK{WSR@oGMmuBnSYp1*m9Bsqt#Pt@$SG6
zQv^^d46X~B2AONmW#>r5qI69_i)`_kPuODZ+zga4#Pu%|#q9meV4#E~cST%tg7BIy
z2rjb?r;N9*vaXt>>O)^LuB|}hS!o0>eb>020r4Fk!ub2mo;jfTge_+o8sx6!Zw}|}
zO*DJ)Uv$H8>D+Oy9K!wG5nMKPoS%l^5j~h{AX`meIh3sVznmEGu%*dF$}HkMEVOvw
zVQvv*WvNMcz~MDm)zgH^Y~p+)w3*$D1qUSiNX_CLA4I2FAzEe`=hYzgM}{?%Q*y_^
zxhx3Ym=3@)yEuOYp@9sI<X_~*;mL}Z<e1)c1lbI5o&?Syp$~g&(X0u5-8eS^fyV_<
zW)J5BAZ%G*4c(~aeDNI|;^+0lc$sy4?}cc)jmKW#7EJl#yC#HQi$Y~K@%;`0x7+!S
k3-3pA&iGCRM|h(@9U(G<SQd+F+A#L(FpF`r2k=k-0kcQ`2><{9

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_4.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_4.npz
index dc0ad1af47362875bb72425aefca3f10bba78cea..79661b4fbbcf049b8264c678ae8caeb674ee97b7 100644
GIT binary patch
literal 14370
zcmdT~Yiv|S6u#RQEPc1M2#9nkj~3f16bS+n5P8H9a0!S)ly)C?+m-F^=I*kz70e<f
zDvyxT5Jg2rG=c(wMv+HR(#S(?>H{Nb5fy<{kY@-%k$`jV?OE=eo#GGwOm6}W4d0yk
z<~!%i%$Z}G7N1b87~cS8z)jo0+Z|t`lC6Zor6mvg0@W5JLwTj+f8o#i8Ba~O&9x|D
z<%N8g8gy#;W32g)x*y3evgW(}T1d0|O8uHkh2KxHdxI+beXznFP}#o=h89_uSpV0T
zWK8GscpJxH=b++L!eE4~3?}UEzx>acy9tBSfm!Lupu4Vttn**xZU1M>m5XHl8;7k}
zit|q~e8}OilHHFKh4&-Jp61oaA}Pv3Rwa&Y3XDrSc8VzBsCc>^Ib<>puCS}r>GuWw
zUR7Q>&MzK6a{k^{LS^>JPd6i#be@W=n!K?dzO#hLY9*r%iR3UM4(~!$vscTn%g-&>
zXPx?BAEA>o^wvbA(=(QitlF$;x>oS)nl?gaLt9!RlF4Rd%I%dNU%C9!oEtJcacjTd
z2^;60%tmCB6~jhWWvb2snbU-e`CO95xH$clfrTMelQ)ftPbZ!7koJrs=FwX#X+_`S
z^mtfSzj_xo$W1YRRX>$GtDs-W$|An-<zB5Vmq>K%T%0!+)quR^_Ef2`)5{(sDRDX-
z!sd4E@~y}Q@)plVR%NocPd!<aO>^+<{`-=V3+(n@dm!WwbOC8Bx-#uVn)d5OYmpA@
z_JoeC+HAP=;h|}xE)X)?950n18U3DOcX-v1ygN#pegHd8Sh&93ydPQU_Y|FltV$F&
zfELuPKJHhw5ILkWw+d(;pVXUspfOb6JK+$KB62bP52TTNhlZ?Lu#kB5u`(JJ<`are
zqQdW!__ioMo`^|wu``yKgtP~&PLxQ^xWvVT?oK0Rjfp_kvIAdlJV656tV9n8Y#<>k
z1+fliw3Qc72Pg#@hbo<jygS~6U!Pq4nvdSnuYNO3K`KxRGEtFL6XS453#Deaf`e|Q
z-{E1EImty4``2B$bg{%c;zxBmI#`S@(&pa-dB^{L@%cuQy0T|x)*zP*;$yN#OA*|0
zuhUDe*~1`%1uN}ZsA~qx+LWd#C<>(_ZLHW>D$ZJVp7__*(7c041(LBz6<OWulOy5J
z-|0);Yr@{bc}N6qgKo{^Dwp`+8)4^^$-C%n&>Ze?8#GwRs)RVu*Pd9?f=a+`(5<Oz
zjm)Lq9eRD?GZGm+cJ0qW8gP;7pdqUk51km)ed)TG7sScci;x6tA1+U@Vv#*qA+sD2
z{RQDIBF7EK*m`6F73(`pWL3nifAr93%UN>`c|gLg^f)#DB70ckR8=-wPq{>pDY-ul
zMj{aAQ6jSHp<fLrpCdG$dHbjXX+Z5AqJupeR@$BHhs2`TbWJ`YY`&P=JRjM>(U)f<
zt1?U1J-*W0PIvSp6Tg~+Tp$6vv}&o-mVQaBC4wX$UalbtC_U&TWYyuIb%$0_cZN_{
zP}k=>qyRppdR1pg^EgW@{0@0*57vY^X~hlO2$wILW|Scp*bmKIWL1UHU<VYskBnd8
zIEqXl{g&Hn<QC+&EmwY+?ywO-3iJMoHY`GrchHbki!s8i+vs?%4{Bk&--di@kX@xD
z-$RW4zXl@7jKROuA{&Tzx5vyzR%KYv*%K*oM;RAOTyZ?#5epr!@F&rzed&KkEbs&S
zV<`%{P{pVw1EpW{DGEA25!GF{V*C}c)G}+KFsvQLK({4gQaH?{IDLN6-b;#v4o5_G
zG}G$%h$Sf=ks^!GRfxDu&SDG0#q=0bv(U+h@N^EoK7oUaY(w`Pf^#^qqnje`rK9$t
zV-1Js$qg}_tvPAO6U_m-#BhLYZh%{C08!5vodR@b;RspW2+jA<5kxb9QW)aXIQ;90
z3h9lawmZj`^)O+D{s~<_V!H**fuj8;dWkf~F6*>GEbph6O;{0I=x#wIzuvo&71AAI
zoF}Ml=qSMv`1P)3Q;F>_p?K)xKs@htwp4{SL5QaSof9|&?{&FMK|vn{oda|$-~jyk
zoo54tOuY*f2^|86<m0@7#h-x`tvkHRBaYFGei2JJL*d`(sY!SVM<~-M`b8|`SjOmh
z-WS<4dnXT!W5StUMySQkfrq0&p-*=XT*Y)UEQ%ePy=;m(&SYL{0QGmyyG@maT=a`r
zdNJqHfuf~>7d*7br`=WtGd+Td9S~m45YDIF_j_@0k!|xL@c~qMuOfK2x*KI4Ke{);
z3q^t#8Js+i@79Olg<3&b6!FY=qhG}GJ;DDMdw%8L?5mh7-r|*qYCjt1;qLo*xR5(k
z*b&YPH@qJQ7fl_i+6d;e#tjBG*SM)<<|X5^#)110DY6LFTeQe$joSWzGu3jbNvN12
zln?%CxlyRdrh`=}5y;D%VP!`OQnRFHp)!bQem8C7&?3uFjYBLi&U*uxWAe2*Y8WbD
z2<De+L7oXLvI|uwgz|f0$v}lvZNy#)l^z^{4=H639YHh$sIDNM7ps}!O|=%v8Y&tH
z<kMf>;0~b39#jz!#?N>55QV#ki}}LM9r3)6So3+j$U5AX5zR|=j-k1`Gvy06RD|*i
zwX+}!71@MaAp&`g!$Vm(aJMQkXSj*s2>hB&dVr2#%%Gco?HHwuQf{(zkx>Yl@?XW%
BzdHZ`

literal 14644
zcmdU0Yiv|S6ut`uOW!Rm0wOHs(PE48kcfaOqJ<a&E&)*xY4_PKZg<zaOKB^Zt(2%B
zX`rHlq7Y&P1p-8oM^VxUf|8;_B!Gwrr1C6;5PSulx!but=j^n`_-D9;ly3XYneTq*
z%$zxMuube3m#IaczFObEZ2ewk-|)ZjTBa5*FB*2gKUite(u~je@A04Ur*867lWa3A
zTDkUOj>{c#>N%sVIb%E{bMmb@o`4?K?f#;G?sD_b$J>1&H~TzPY7e^E_ql`etqZLG
z>q&^t;#z?XG1%IFa57;qTvY~Rcl2I#Y03`5;9PKOs$kIB&_LDszwT@LbHnwkWd3W1
zEUp&wPm21GBT%8bA88u)Bgf7|O9hJrlZC2E99tKBB;nXuqJ*RL=_bJ;opErLyNa9v
ze<<K{t1HLl`2{0p?>bJXOgr=GdO;->Q&CluRV(>(fe=}$r7aUgvKSGEZ?0RnSE{ee
zkBzscp8a4qp_4V}_BcVOYb+gAwW)2mnLDfY1R=BfL`u9MlgY@G*vq{B67{9IIB;nE
z#$LY=HqM>t^@2@C3>#IIskp$&oFiOdUXsGNI0I$DxnZ}i?lLCNPTJ(5Y>p!5(On;Q
zT=*8!<3UyZY7O5Y*Twi%-2{}Y2)|O5MaR5Xx*cz9Ceg8Ve)edg24A;4-U>J0=~a)B
zqz(oh!shRqMH>YhzHVVQsw$JYdBT~hOu7b7>%BWsaN)bX&mIg1f_H#47DJgPBF!q#
z8#~&gqwFd+%QgD+lS?lVI!(9omkT;Pc_Hek>T0W-Kiog@p(}*UCdbRe1R3MlWq0`8
zVRbji6GlFHlCW?cUcX1MFpgaY3ssdEyp3x?qvYdW6>|lLWad^u-RoC6R|(dK>$=D7
zCsIVNrv55uB(~B}RSOmpuRU5!qXH&e28q&uU*W^AJlm3!P<FBXFC>)B7uz6_oYstD
z!f>Y%s>VbxW8vPf*PbGQ4c(~=4{T0CRSI$)&g)CA2pxE3E1Dx3MAY5!#<CRTEk7+f
z-1ugQQBvo0cx4MvQB{*@u1o8_(5-mhUKVh8S)oyJQRM#BE|)uO;T?X|y;;Ocj4sNq
zzk9P!{{GUOda`t7PD!s4T+)b-sTwW${K$Tbp4p*?@f9poX4k`aX0R+zY8Wp>p;VNO
z6&qWMGZtPZ{&gcfbDyBX7h|A`s_ym4f%4Da?@8Tj?5@0-f(SnidUUU=MB&6Y!t#{D
z?esJV!=0Z7qbyWaLLTVLPc3K^O7PR5M|ZocRIXfaG3pDSk;v$>eNUF4!4Fa`G*s2%
zfm8iESFeb<5G|~nCrI$^!{rT?&a;O~RhA=ST!_3&<oLrex=t|R1^8Absw(0!9-1`T
zvTAP%9(=(q^E&mwJbSsqOI7j1#*#|}8Q<rJ0fGn*bCZawdKgE;!i$8)Gw&U72paq<
zfky|s11+;V*%yUHu^F0tMA&>W<IrruhNr%mjjGC2uXt>UuZiyH2gV(oF1YXo*riu0
zy=)nW#2O+<;#Z4wL4uba3=*p9u+O?hFI{$?P<Vb>k8cG9?o)1`+Zooq&Z5$QL*3eg
zHEw#!;BA`-moFP87Yi<YKZIOVRfW-D2@2gu3Klz#2qt{_EwNXrEy&Lsu75wtVIzX%
zW&dXOU-BStp`of4qok{Dz2mtaLW}5iblC3>v7?mYdq}jMaT}3j@_?Ue1REaj9xr60
zsxqvF?un!hM;I4N2d+W%p$)z*AG0qJ3;(xh_oXP@R0~lJQIv7arzqUW3Q;x8TDY9Q
zJBq>0qY(3W2V;I_D=9_dhE0e}=qQjfi?~S=;u;w)re%_v#f^y&zA_HMWwvoMAOt%)
zY4X-UY9BY?!6Alrju}EW2i)`q2e{1!khQ?kDd0vkIKrX3=m@eIz*1OBE1db{+wmG{
z^`f@h#uj%0SgC*FCZ<-y5lb#>E;rj}j1p;#UDP-PvDW}r#uhj0K;-sBjWoMN^9gDj
zH^{&dYLe&(vKio}6o|JaYqSYMJ_Xze0*C0s6eN8VMbfvAn=jxHS7V2e(ZCH4aDd&Z
zEZ{-=1AT$G$p9j&(*#mx5nt>>Tw%I~ulcD-e3=fRNf{<oW)nI%^AGchSia-H*6VC)
zv2Ea+T?J4oOxwU`**+4rD31wrIcm<7#j!O@0FA5C_NL0B)_fwC^8zS)HTV+HL@|5o
zyNNhx=LO-5HwX{ijo>od@Fg)F%qL<Q(_NEXeYHm!<Kue}yi_E7sbiXF+>cVcR4Z6n
zWj=2{5zCsM*#5t<XP$395zCx=G*~p3uO9fqz(ljjkLZQrQtr4&58>Lq2ripCE{sF)
zK?a6paw-{oWi9{t$bd&IwY>#WW)T;Fp~b0vI1ZG9sYzUPh0vZ>6DqUmK!r{SJk5Zu
z#X`A0xVQ+>8~Q@D%rY+MLF^0J%&~BJkMhMuGzcEm4}fKMap4L=E&Vl8_>r^5#UePu
z;g}I*Gr$EJh<|4Qduy%b8p;|MMIf+vU<*)Y4;LaJtY40Xj`DK8`0x+$%>*yAjt|@r
zy)&05ec<>_`Qk$^ghmFLP?=49u!O+E`&c-jgPEK&KFq-py5`XlqBH2kl3-06$^I0u
L<mfc}Elv9eN7ZdR

diff --git a/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_5.npz b/demod/datasets/DESTATIS/parsed_data/appliance_ownership/ownership__n_residents_5.npz
index 6e3375ae5486a13cd387f1104221947f4f9b228e..2d937564cc4ac4648dd8b05fe703cb2bbe538286 100644
GIT binary patch
literal 15150
zcmdT~eNa?Y6n`tIfQX2QXnuf_ph6~A8fj`{O^vBo>S&X~vio4SV0V4H@?|;eXqi@{
zK~6f8V-7iFX=#}sGX@TnHH?v&Wu~HOW)9#-rlvO9J#Y6s-aTA!n*O=G8Ha)KchCLZ
z-#O>rd+y1c5)zuG1inNi@t@2gcY<G-607(Mv(oQ#c}grwwDMZ;f8o#aX|twg&b26o
z%A#bu>a}Uf841bba>pj8CM4&&HJ@g6Ww|xG3V(mXn(tNF-@Oj2M`gdK3`<RTIpKeO
z5rOGknvlscSmUjkPZ*4rl|l5<eRUfj-%l854HH6;K^I*ES?3S4-+85(%zxwkE0^H>
zBLhB^<1Uunj}(RXqwt+y^hOpD1`Ao07<nS8%aS!`h!Q`gKeq@u^kf|Dh4w6)+vRoV
ztMbZmXlhRMoQIDSDi?<C*o0Ji@Kj{g<l6)A{XvMFZhU(-66wu|<m4|@HEW6dx*Q&S
z?8f33_7XbLp<RX{onEc!$g0iyi<SGQj5$ikH1@jjJCccIWb&*9PFJ4%(tLCof`)op
z)#sD4kxfi1HnJ*HRJEbs$P>R2Wz6T2D8|L+F7Pb$shYfLOnf?NlZUitl>f-%0a^V@
z%;T5$n~hzb^Q#A?<?&QxrxD9vCGk<+_2U;Y*5S;B@gXaV(AiOGpRT`1Sj^qtv=CW9
z{>^n3t8ikGJ=PEFN0!5cP22(plDPx<muDlZGH<@)idnkvG~rUQbnP)D1E-dJtH<Z|
zbO33ZX6zpLN+Z3ZjQ(t2GSY!l3!x*cHrG;~UsZFpiD*;2r|K$_(eGQ<oP5<M@6Nc%
zGd|)-#VNv~yZ8GA$U?tw=`3VbB5>b2M>xDvzFI{N-I-f?G^b1ILyGQCDF+A**Rm}W
zkVdx_8nSBfr+#CkA#Oft=_DL(m&CVT@$p1Vq6425Ta@Tv2Su?G@}3fPf1<U~Q(2e4
z<^o%fiHBqj?1`h{t0mdVtVB3uCm<m!1#wu9`75j%b%45D;AE&1k$2nH5A2l<M2*VX
zL$4tfsLPqC$g0Vt?6U_4A8T*FfYW+`JIBe&q>_sw_AhgYwBpjic8`($XBw{|t++_L
ziTqrD{n;~{==m^qM$b|VmT2N*vPMhl^0=e**Xd2&>|v0>yaiUx*YSgeQt4o^5>-C$
z6#5sXB5kOw{xV^k=Afnc;U6^bLMpJYm>f*jNXgjoO<~oB3uJ?AuIpw+B5*s;)tvS`
zi7z6NM=IF;{3Kyvj(5172Uy6egm_o%^WNfGR03}2xtgk$%KU`TbZawv*r_2>)RtAf
zg*4zg6{I1n7En#B+jy3c@P6VLh$LVqv^%|yBCFRSvm6uk`2LVE@$~t%5t+aXLJJdF
z6{&^?wj`RTiU!=+iaa3U7C3F1yU1E7ajJ^eQ&lAqWZ4MY8%PAg+#n*W9_%4{#iZ=>
zgvOv*-)%t}@D>8m!5*UvtTy&TVo{!i=c%|ogpKQ3Ng}d=Q#{W`R%LYmIzrFBRX@&4
zMJ|wl?OKV<X)F8WboQoGMg*yjxjhX@KovzNA*&8LgBW_7s-51~c=rIGQu9@tPjlL`
z9PS)>%P5Y$zVi6cokWhZuhylb9IzjnxyY&tyyAGq(|yF;{Rinc&sr+CAc4aoZT~y*
z!{4h=5D4-h4Oz9A{CfVmTbs8NuNqr=a5$0(yr=tIs+V1*B;P~k*dJjbzl*R*e`#w2
zvVnNdb(-18s?0b&c^zV0ES=Iq_)cr+q=tWC=!5L1-vYm2-!(-+ce5B(6F}(|3yOk{
zVnlU;;e(&wvW!{t6~fw448$>FA`!rT`Yn??>GLysdMOe*XAv1}($?{QOGF4FMHZo3
z6>&W|i}eiGs&|!|g$_}K_u$~`LOHm|HgshoxHkvR>8yx*G^u^)gv23waYKw^Yfjoc
zMRS1eLmVKM8{jq@K-7y!rvM#)I6@3J!hx=I1knuOmXG)-4!<@`F?xyudn>iwHa0ul
zgcbT{+t?K5Kt}(MUc#bwp@U02=Sya+{!&M=&^3iv-p6-$Yq2X@Dd<!}B(K$CHW1(G
zBVI4)4#E+5t)A{qM-a^bI&u)tdu%+Djx@B0rvP0rI0Wyp=UNXTngev6-~jyk?O+k;
zGxed+m4|K*MDjVJG#Zg2i_l?#IJQj2=eIn{QU=#=K}|we145a)#^<+mX6qk>ifo#_
zlLyuTu%)knT5KD*iY<2lc-MH~EzV@l761x^p>2zOnU4g3!bpIZVe#TL7(o4<xIK<6
z&W+D+sfY_&6s;+|fTBG<*XQ;@?{8;i;nfl0e6AlA&%s5u&5OiG-c1H>{qENuWgfr3
zFTo4dg%>THJdZEyNAN<C;S~w-ELe=sZ<&7&kG~sxe&tj8E9Nr0IA@p_kB46&a3Obi
zp}@KG@Tvj4bs=?l6+k$z`-*`aT*MqI@d)O#)iZ;b)0pb=?J3S@tM~*&iY!9K87=bJ
z>bQ<G)t{+JsPZC|PXQH)U{Z&QY(ixffxLG(2D4)jsk2hEP|ZX%e*#D!Vn&NBLj@7B
zyf`-*)+ob?{R*mf2<DfnHpv7Q*@a3OLixRT<-H22G>MHvbqYt|BXZ7AI)Z2hP!U2r
zFIG}ATeX(@5M6Gl!XS{(p63xLvImt9gz@v;lA>_612JEyHXxq&k>X)IUS!>TGvK9q
zY&e`UP4|7u7jD&Pm|v*y5e8Ib6K=8y<Tb8mK>j8u<_xz-9D!f6cT?#Iff;nxuSyw8
NhO&*(bfiI|{THOMZB+mO

literal 15698
zcmdU0dr*{B6#rHc6%i2;(R_fKi;7}cYG$L%SW}sbm5w$VEV~Q4wd}6DD+ro{qh`<X
zK~DOIqYgP_X=NGejDbN><CvORX1>Tr)&Rar%+ay#{g(UfIcG08PXAm!$I)H=-E)86
z@0|NM=a4z2eMGz#e3G@~JDG!CXCL_QPFlPcD9B15>Gl?xv{?N+{{Q&D@uzg!%&D1k
zOj?1q$ZWIwtv>VkB=dyaapu${bFRl1@LAkh9-qz5zkkx=^4r<>euu?tXP;AsrY60b
z^uL~{;4H3A%tQ><`Kw<d3`VQUAa>dQ16!V`B@BFLCbkz0B6ST^oj;#_#b1qN{#!=9
zxm3(QI_N_=o`tIWk)~lk>Rj<<Pr)L}V4<oKX{QHAE?sw?DDiXpi;Dz@?u>)2z?Nn8
zxcwfNU0pejPR)s({pcw|<?@hSTLqPFn2M^Je1DKXe-I+)>ffCui1cJca$F1SK1-4M
zx*QvL^45}<_Ypd=5s^a$ogU$IRMlqVmGastV^0t=^*wI=F37|)GI^GKr#nx5X+FBf
zgNAxq<rf**f=yf)8&#DltlZQm?eqnr3_O>_FfLY4zIQ>u?o)Relb=pn<e}^t<vw{l
ztg2thdHni*qp`~)zj{Pj9#2QN8@}>25+79^KYm5TIzMxX_)wKa#H^SRpKZKCSj^ek
zut2cj>u;`ep`D*tRFCyz`jO=rVUsZ5@vmUR*I&#=Rb}3J&mFgH|2e{?Y}xvgf(t*j
zxGdg)$J+*^X_&F6|B8BgMS;t(j7}R{jW1SRsBKLhWf$em+}93#MVxK)=ljiq4nI>8
zXHzwDno{Pjs=m=c$SmAjc|(xVZ^M=xmp!2Fxn-;O@u=fvb%aG%{}1y83;i~%vrtuu
z;BEL4;jp4~wOw%N%G}E9bGns2LhAmMa*)t)FW){<(C8APp{f?w_4|Bl3$RYY;c+XR
zlaL=C;Vu#)(Z==;ISFNVjQdeS-7~z-f@ZGkvaWrL0$Y!XF{%dkq|yATA*&N~r_OwJ
z;v`h1Aa|y*e|M@9I`FJ%@Z7EwQFq(cuT$k`h#KXyhBOH(JZlQ5sH#au_QfLuPqwyS
z@VivLC&$T>*ouoH_b(VCVO-kS?vd8_1*29K#zomp<d;J?pFh8qo)6<^bT1ac5=(qc
z)o4jwnQ-FJO`1o69>!NNf4;>RX#2rJskE_Ji7A~|C;W?2Q8rXof1UKH&p`_%!#-%-
zEvWE)1vr?hkurYQcLkN3E|U$i@jw@gAi{6wxjv^YPvMJ5^zkxwKR-)Yz<B4k^B@aV
zm5}d>y*4kY5lZmed9KfHFIKt0({OtmE4x(_DQebMt`Ri&ov@jPs#@szw=EY53I8XK
z{(=PG32jclqtN1as4T}MJ-$CAOuW5*s~1doeJ8|3RYj_J`ExK`rwaSs+97!G1vlSm
z^?3>{1qv@!vHDU~P6Sy#-1@d4!o%DkqN*OOP2i1;>^}*O0W%M87c_XKibn@)709<(
z*&hmv@)R!~ChR3_+)YKvf(<{#V>YTPqx;u!diJgSX<n+}!WUqhuSn%(EBowpR&iTP
z1gVO<J57+_SrnawsygTl;^=LvW_oX<?!kS^?y_40KBqOy;mJ`qjpEoBC{2v0Aabnz
zW<$D=gYSosi>j*dDvtMYx{tu#Ouqc)S&G#bBzRb)&6%fv{AZOAga>&u4OO+6{Fdv|
z?QJ`WSB)z^GE9&Nb~^;zc0apHDZYoywmrr|em7y0zIewO!G_0st`o9RRhbF;;&qg9
zF}33w1RvT5FPu=*N=*FkqAQ-FaPK)pRR>Xe#)6`7zc)lJXVwA*{M}IujN|AKgw1bq
zJAHme$2CRbzUC0L#1z$DAY~SDFEPX&Vz{u*Vrmxm??U*72n3he#yztToYO&*chFM%
zxK9-h@la&g5VASo-cUHeT{eKMQ<P2t_hZ5l4tAs?$Yua<`7t3l(|mm=&FJ_F?yb~z
z%h>GB04w#+ma!@9XE2QJEIoxq?c)Br(4<RDS0Prf)KM(%X@l53T|#zcZwmL3LF5t^
zEVvI#{=RVU798Q(u5<+13~;{`#3wT8NJEQ!3h=e}42{6#z9bn!svPbM3XM@>s^}Iz
z3#ov(7Y7cpA~tLY*_*)qFK~e8y0i5Lbi+{nanA`vCdLV*%p&gdfVfi(hq^wfN!(ij
zp=CV`sLUo5i#ez9l$acBQvqcvYO!VD2qt<EDAl%Q;B^BiRkUT`?gU{`8jrX>ZBS$m
zxww}A>ecGjII`8ocuGteiOoRSJH>Ta1I6q`^cFGL%A3WtPY6GZ;WFFsB{8Ql9=6u@
z(InN!)+l4V?E!+9s*CGthIz()R9}LZii~Sn5Pyf@@5P=4sqvJUYWrz0*?;eq3&Yp+
z$8afkTqiM%GwyQ-V7Qbzu1!F=ISIjK%yB&cg0C_#tPZrMc=L}Y>TtH!CJUs@BF=k5
zi^T&u4rIZpNt|nj(2PL_RAv+BcOfuxFguKqY%ev7bE*)11fgY?aUK(5*FVVo8fP`B
zVVpaJV9O8ymf6MmItWcMYb4(#cWRs?gCjJBjUbx=&Pzdjbqagup)3_;jdMW|xN>MS
zP-YM3Um)z6VH(O{$ob-&2gD}~$9S1_ct2qWCgUkF)iE^6I#9m&Zf_u2_?M>|P?=49
qpN2r!2o?_LJ}T#o@33%$@gwO7!5MU5XMatbz<!NkhqA~t{^>s|0X`=H

-- 
2.43.0


From 85aa764afcdc35b07f47ae707f04bddea5357bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 76/95] fix: households without any revenue are found in the
 DESTATIS survey

---
 demod/datasets/DESTATIS/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index 93991a0..ac065a0 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -292,7 +292,7 @@ class Destatis(ApplianceLoader, PopulationLoader):
             offset_n_residents = 12
             return offset_n_residents + n_residents
 
-        elif household_revenue:
+        elif household_revenue is not None:
             offset_revenue = 27
             assert (
                 household_revenue >= 0
-- 
2.43.0


From d5af93ccc7194d8ed1bf883617666d7a890241d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 77/95] fix: an unknown population type of CREST raises the
 error that explains it

---
 demod/datasets/CREST/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index ce0479f..5f9f76f 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -155,7 +155,9 @@ class Crest(
 
         else:
             raise ValueError(
-                UNKOWN_POPULATION_TYPE.format(population_type, self)
+                UNKOWN_POPULATION_TYPE.format(
+                    population_type=population_type, dataset=self
+                )
             )
 
         return subgroups, pdf, 25e6  # estimate
-- 
2.43.0


From da3e20bec8c89d94c69045330282a9d66cec1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 78/95] fix: an unknown real_profiles_algo raises the error
 that explains it

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 7b1c38d..04ee186 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -373,8 +373,8 @@ class AppliancesSimulator(TimeAwareSimulator):
 
         if real_profiles_algo != 'uniform':
             raise ValueError(UNIMPLEMENTED_ALGO_IN_METHOD.format(
-                real_profiles_algo,
-                type(self).__name__ + '.sample_real_load_profiles'
+                algo=real_profiles_algo,
+                method=type(self).__name__ + '.sample_real_load_profiles'
             ) + "Only 'uniform' is implemented at the moment.")
 
         self._sample_switched_on_load_profiles()
-- 
2.43.0


From 9f4628a46c9d04d7910939b08c1cf4447b992861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 79/95] fix: dishwashers of CREST are not switched off when the
 occupants become inactive

---
 demod/datasets/CREST/loader.py                             | 4 ++--
 demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 5f9f76f..a54250c 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -333,11 +333,11 @@ class Crest(
         )
 
         appliances["inactive_switch_off"] = np.where(
-            np.logical_or(
+            np.logical_or.reduce((
                 associated_activity_use_profile == "ACT_WASHDRESS",
                 associated_activity_use_profile == "LEVEL",
                 appliances["name"] == "DISH_WASHER",
-            ),
+            )),
             False,
             True,
         )
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
index 913b44d..2fb90a3 100644
--- a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
+++ b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
@@ -172,7 +172,7 @@
     true,
     true,
     true,
-    true,
+    false,
     true,
     true,
     true,
-- 
2.43.0


From 3d222a118335a9ef899026d26f7621be653d061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 80/95] fix: activities of the previous step are kept when the
 caller updates its arrays in place

---
 demod/simulators/appliance_simulators.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 04ee186..4bdbc37 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -556,6 +556,13 @@ class AppliancesSimulator(TimeAwareSimulator):
         """Switch on the appliances that are in use in the starting state."""
         pass
 
+    def _remember_activities(self, activities_dict: ActivitiesDict) -> None:
+        """Remember the activities, whose arrays the caller can use again."""
+        self.previous_act_dict = {
+            act: np.array(n_performing)
+            for act, n_performing in activities_dict.items()
+        }
+
     @ cached_getter
     def get_mask_available_appliances(self):
         """Return the appliances currently available in each households.
@@ -1396,7 +1403,7 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        self.previous_act_dict = initial_activities_dict.copy()
+        self._remember_activities(initial_activities_dict)
 
         super().initialize_starting_state(self, **kwargs)
 
@@ -1474,7 +1481,7 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                     & mask_apps_this_act[np.newaxis, :]
                 ))
 
-        self.previous_act_dict = activities_dict.copy()
+        self._remember_activities(activities_dict)
 
         # Bypass the AppliancesSimulator, as appliances were already updated
         TimeAwareSimulator.step(self)
@@ -1781,7 +1788,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         TODO: implement a good initialization.
         """
         # Remember the previous activities
-        self.previous_act_dict = initial_activities_dict.copy()
+        self._remember_activities(initial_activities_dict)
 
         super().initialize_starting_state(self, **kwargs)
 
@@ -1869,7 +1876,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     can_start_app[mask_start]
                 )
 
-        self.previous_act_dict = activities_dict.copy()
+        self._remember_activities(activities_dict)
 
         super().step()
 
-- 
2.43.0


From e3b7034ba9d5f64d93b61c2f606c480f2589fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:31 +0000
Subject: [PATCH 81/95] fix: the transitions of a SparseTPM can be checked

SparseStatesSimulator.initialize_starting_state called a method that does not
exist when it is asked to check the transitions (its default).
---
 demod/utils/sparse.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index cb0b5d0..0698f98 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -152,6 +152,32 @@ class SparseTPM():
             raise TypeError('indexing of sparse tpm type was not understood, \
                  must be int or')
 
+    def check_valid_cdf(self, epsilon: float = 1e-6) -> bool:
+        """Check that the transitions of the states are probabilities.
+
+        The states that have no transition at a time are dead states,
+        which are not checked.
+
+        Args:
+            epsilon: The accepted difference to a sum of 1.
+                Defaults to 1e-6.
+
+        Raises:
+            ValueError: if the transitions are not valid.
+
+        Returns:
+            True if the transitions are valid.
+        """
+        if not np.all(self.values >= 0):
+            raise ValueError('The TPM has negative or undefined values.')
+        # gather the transitions that start from the same state
+        keys = self.times.astype(int) * self.n_states + self.inds_from
+        _, inverse = np.unique(keys, return_inverse=True)
+        sums = np.bincount(inverse, weights=self.values)
+        if not np.all(np.abs(sums - 1) <= epsilon):
+            raise ValueError('The transitions of a state do not sum to 1.')
+        return True
+
     def __iter__(self):
         """Iterate over the transition matrices."""
         self._iter_count = 0
-- 
2.43.0


From 4e9f7fb56286a8bc6af43c21650ec6d42911718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:31 +0000
Subject: [PATCH 82/95] fix: the irradiance of RenewablesNinja is the one at
 the surface

The irradiance at the top of the atmosphere was added as if it was the
diffuse radiation.
---
 demod/datasets/RenewablesNinja/loader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index e0d11e8..e0a913f 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -162,9 +162,7 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         out_dict['outside_temperature'] = np.array(df['temperature'])
 
-        radiation_direct = np.array(df['irradiance_surface'])
-        radiation_diffuse = np.array(df['irradiance_toa'])
-        # https://meteonorm.meteotest.ch/en/faq/definition-of-direct-and-diffuse-radiation
-        out_dict['irradiance'] = radiation_diffuse + radiation_direct
+        # The irradiance at the ground level is already the global one
+        out_dict['irradiance'] = np.array(df['irradiance_surface'])
 
         return out_dict
-- 
2.43.0


From 40cd7fe06ee4b4849c2238fadc7dc6369d71798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:31 +0000
Subject: [PATCH 83/95] fix: interpolate the climate inside of the minutes

The seconds of the time were dropped, so that with step sizes that are not
whole minutes the climate of the previous minute was given.
---
 demod/simulators/weather_simulators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 833d11d..53d7e81 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -748,7 +748,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -757,7 +757,9 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            self.datetime_values_utc - self.initial_time
+        ) / np.timedelta64(1, 'm')
 
         self.interpolators = {
             key: interp1d(
@@ -815,13 +817,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From 7184f640479e24e363721ce7c598c64da6ecc238 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 84/95] fix: plot_column of a logger without times or with a
 single attribute

The x axis had one more point than the series, and the axes of a single plot
were not iterable.
---
 demod/simulators/base_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 04f65fb..593bfc4 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -278,12 +278,15 @@ class SimLogger():
             n_plots -= 1
             x_ticks = self.get('current_time')
         else:
-            x_ticks = np.arange(0, self.length)
+            # (the last record is not part of the series)
+            x_ticks = np.arange(0, max(self.length - 1, 0))
 
         fig, axes = plt.subplots(
             nrows=n_plots,
-            sharex=True
+            sharex=True,
+            squeeze=False
         )
+        axes = axes[:, 0]
         plt.subplots_adjust(hspace=0)
 
 
-- 
2.43.0


From b3b18b74a0af4cc54119a5cd00a17aeabf047132 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 85/95] fix: plot the dictionaries of a logger that are not
 aggregated

SimLogger.plot took the shape of the dictionary.
---
 demod/simulators/base_simulators.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 593bfc4..eff70f8 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -379,14 +379,20 @@ class SimLogger():
             if attr == 'current_time': continue
             serie = self.get(attr)
 
-            if not aggr and (len(serie.shape) > 1):
-                if aggregate:
-                    # sum over the households
-                    self._plot_single(np.sum(serie, axis=1), attr)
+            # Splits the arrays of the dictionary
+            series = {
+                '{}_{}'.format(attr, key): ser for key, ser in serie.items()
+            } if isinstance(serie, dict) else {attr: serie}
+
+            for lab, ser in series.items():
+                if not aggr and (len(ser.shape) > 1):
+                    if aggregate:
+                        # sum over the households
+                        self._plot_single(np.sum(ser, axis=1), lab)
+                    else:
+                        self._plot_all_households(ser, lab)
                 else:
-                    self._plot_all_households(serie, attr)
-            else:
-                self._plot_single(serie, attr)
+                    self._plot_single(ser, lab)
 
             plt.legend()
             plt.show()
-- 
2.43.0


From 580dac04b9def65116db5e6d15f9bee1567cc4b6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 86/95] fix: the legend of the household activities counts the
 main activities

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index 9176771..c6d37e1 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -112,7 +112,7 @@ def plot_household_activities(
     for j, key in enumerate(labels_main):
         scatter(dict_states[key], i+j)
         labels.append(key)
-        max_number = max(max_number, max(array))
+        max_number = max(max_number, max(dict_states[key]))
 
     ax.set_yticks(np.arange(0, len(labels)))
     ax.set_yticklabels(labels)
-- 
2.43.0


From 847c22c313fd03abe46e53771aac9cf23f0f2f48 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 87/95] fix: the stacked activities use the step that is asked
 for

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index c6d37e1..cefbe40 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -240,7 +240,7 @@ def plot_stacked_activities(
         time_axis,
         dict_states.values(),
         labels=dict_states.keys(),
-        step='post',
+        step=step,
         **kwargs
     )
     # Reverse the legend, in the same way as they are stacked
-- 
2.43.0


From 26e1278bb6891c6666342c7a320cdf3fdc381cc7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 88/95] fix: the arguments for the stack plot of the states are
 used

---
 demod/utils/plotters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index cefbe40..e79b5cf 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -201,7 +201,8 @@ def plot_stack_states(
     ax.stackplot(
         np.arange(0, states.shape[1]),  # Create an x axis
         stacked_states,
-        labels=labels
+        labels=labels,
+        **kwargs
     )
     handles, lab = ax.get_legend_handles_labels()
     # Reverse the legend, so they follow the states order
-- 
2.43.0


From ed31dc2db05ca52f93eb557ac4dc75dbf2a09be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:01 +0000
Subject: [PATCH 89/95] fix: keep copies of the initial occupancies of the
 variable thermostats

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index dfc57b1..1f11801 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -199,8 +199,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
         """
         super().__init__(n_households, **kwargs)
         self.attribute_patterns(pattern_attribution_method)
-        self.last_occupancy = initial_occupancy
-        self.last_act_occ = initial_act_occ
+        self.last_occupancy = np.array(initial_occupancy)
+        self.last_act_occ = np.array(initial_act_occ)
         self.time = start_datetime
         self.initialize_starting_state(0)
 
-- 
2.43.0


From 670dc5dadf09500051792cc8bb6d84862e199618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:05 +0000
Subject: [PATCH 90/95] fix: keep a copy of the active occupancy in the Fisher
 lighting

---
 demod/simulators/lighting_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 572da7b..418d48b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -94,7 +94,8 @@ class FisherLightingSimulator(Simulator):
         """
         self.active_occupancy = (
             np.ones(self.n_households)
-            if initial_active_occupancy is None else initial_active_occupancy
+            if initial_active_occupancy is None
+            else np.array(initial_active_occupancy)
         )
         self.irradiance = initial_irradiance or 0
 
@@ -141,7 +142,7 @@ class FisherLightingSimulator(Simulator):
             irradiance:
                 The value of the current irradiance in W/m^2
         """
-        self.active_occupancy = active_occupancy
+        self.active_occupancy = np.array(active_occupancy)
         self.irradiance = irradiance
         super().step()
 
-- 
2.43.0


From 6dbf8a7e25f5b70cc027e91274743aa1c836e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 91/95] fix: GermanDataHerus raises NotImplementedError for the
 lighting parameters it does not have

---
 demod/datasets/Germany/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index 0b85665..e862d2a 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -186,7 +186,7 @@ class GermanDataHerus(
                 (
                     "'_parse_fisher_lighting' is not implemented for {}"
                     ", version '{}'."
-                ).format(type(self).__name__)
+                ).format(type(self).__name__, self.version)
             )
 
     def _parse_crest_lighting(self) -> Dict[str, Any]:
-- 
2.43.0


From 0a6f9a152030f7dca5784cf1b0f42c23d52cfaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 92/95] fix: GTOU accepts clear_parsed_data when nothing was
 parsed yet

---
 demod/datasets/GermanTOU/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index a545f01..214e075 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -87,7 +87,8 @@ class GTOU(LoaderTOU, PopulationLoader):
 
     def _clear_parsed_data(self):
         # clear the parsed directory
-        shutil.rmtree(self.parsed_path + os.sep + self.activity_type)
+        if os.path.isdir(self.parsed_path + os.sep + self.activity_type):
+            shutil.rmtree(self.parsed_path + os.sep + self.activity_type)
         os.mkdir(self.parsed_path + os.sep + self.activity_type)
         # Also cleans the zip file
         parsed_zip_filepath = (
-- 
2.43.0


From 68708902359adb5a09fc518faf2b04a444706dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:43 +0000
Subject: [PATCH 93/95] fix: appliance simulators do not write in the appliance
 dictionary they are given

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 4bdbc37..1db5dbf 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -124,7 +124,8 @@ class AppliancesSimulator(TimeAwareSimulator):
             :py:meth:`sample_real_load_profiles`
         """
         super().__init__(n_households, **kwargs)
-        self.appliances = appliances_dict
+        # Copied, as entries specific to this simulator are added to it
+        self.appliances = dict(appliances_dict)
 
         # give appliances to the households
         self.available_appliances = self.sample_available_appliances(
-- 
2.43.0


From 5360473a1eeed16924c84f518059e7e374b74064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:43 +0000
Subject: [PATCH 94/95] fix: probabilistic appliances do not invert the flags
 in the dictionary of the dataset

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 1db5dbf..c3e9fb2 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1619,6 +1619,8 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         appliance_dict: AppliancesDict,
         initial_activities_dict: ActivitiesDict
     ) -> AppliancesDict:
+        # Keep the dictionary of the dataset as it is
+        appliance_dict = dict(appliance_dict)
         # Check if probabilistic is given, else assume all appliances are it.
         if 'probabilistic' not in appliance_dict:
             warnings.warn((
-- 
2.43.0


From 3b66a9a2757117c9127edd8e728834e755a3f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:43 +0000
Subject: [PATCH 95/95] fix: RealInterpolatedClimate leaves the climate data of
 the dataset as they are

---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 53d7e81..50ee5d7 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -743,7 +743,10 @@ class RealInterpolatedClimate(ClimateSimulator):
 
         self.data = data
 
-        climate_dict = data.load_historical_climate_data(start_datetime)
+        # Copied, as the datetimes are taken out of it
+        climate_dict = dict(
+            data.load_historical_climate_data(start_datetime)
+        )
 
         super().__init__(start_datetime=start_datetime, **kwargs)
 
-- 
2.43.0

