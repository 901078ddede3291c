From 41fab0ea5c44f8b18ea693ab52a515d077f473ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 01/28] fix: speed-scaled times lost 1 ms to floating point

int(1000 * (n / 100)) is 10*n - 1 for some n (e.g. n=201, 203), so scaled casts and recasts were off by 1 ms.
---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..66aad04 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -11,8 +11,7 @@ class StatFns:
 
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
-        tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        return int(10 * np.floor(tmp2))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From 20f846bcb19e63c816d3bd8cf74015a0703ecac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 02/28] fix: timed actions were pressed 1 ms early for some
 times

int(1000 * 1.001) is 1000; round to the nearest millisecond.
---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..321a496 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -175,7 +175,7 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append((int(round(1000 * t)), skill, skill_modifier, job_class, targets))
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
-- 
2.43.0


From fb921a15afbf79ffa706189caab541da4549a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 03/28] fix: RotationBuilder scaled the caller's downtime
 windows in place

Reusing the same dict for a second builder gave windows 1000 times too late.
---
 .../simulator/timeline_builders/rotation_builder.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 321a496..87ad27d 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -97,10 +97,12 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(
                     downtime_windows_use
                 )
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From a6bf6f3bb67da5bbd5ed0943b7c454ac3b795411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 04/28] fix: damage exactly at the start of a downtime window
 could survive

1000 * 2.007 is 2007.0000000000002, so a hit at 2007 ms was not in the window starting at 2.007 s.
---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 87ad27d..81fa108 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -82,8 +82,8 @@ class RotationBuilder:
         # convert to ms
         for i, downtime_window in enumerate(downtime_windows):
             downtime_window = list(downtime_window)
-            downtime_window[0] *= 1000
-            downtime_window[1] *= 1000
+            downtime_window[0] = round(1000 * downtime_window[0], 3)
+            downtime_window[1] = round(1000 * downtime_window[1], 3)
             if len(downtime_window) < 3:
                 downtime_window.append(None)
 
-- 
2.43.0


From a981ca8f0204c3ec8fd99571383b6b80f265668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 05/28] fix: downtime windows without target ignored targets
 added later

The windows were expanded to the targets known when the timeline was first built and never again.
---
 .../simulator/timeline_builders/rotation_builder.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 81fa108..7b842d1 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -69,9 +69,10 @@ class RotationBuilder:
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
 
-        self.__downtime_windows = RotationBuilder.__init_downtime_windows(
+        self.__downtime_windows_spec = RotationBuilder.__init_downtime_windows(
             downtime_windows
         )
+        self.__downtime_windows = {}
         self.__default_target = default_target
         self.__all_targets = set()
 
@@ -106,11 +107,13 @@ class RotationBuilder:
         return downtime_windows
 
     def __process_downtime_windows(self):
-        if isinstance(self.__downtime_windows, tuple):
+        if isinstance(self.__downtime_windows_spec, tuple):
             res = {}
             for k in self.__all_targets:
-                res[k] = self.__downtime_windows
+                res[k] = self.__downtime_windows_spec
             self.__downtime_windows = res
+        else:
+            self.__downtime_windows = self.__downtime_windows_spec
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
-- 
2.43.0


From b871939262e39e83935ad4bc8af0a5db2d14cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 06/28] fix: building a timeline twice duplicated DoT
 applications

DoT applications and main targets of the earlier build were kept.
---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 7b842d1..beb78bc 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -767,6 +767,8 @@ class RotationBuilder:
 
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills = {}
+        self.__timestamps_and_main_target = []
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 03fce2c22318d1a1b911b2d786e5009b516e4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 07/28] fix: no-auto periods were wrong for actions not added
 in time order

heappop was used on a list that is not a heap.
---
 .../simulator/timeline_builders/rotation_builder.py              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index beb78bc..d9c1494 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -846,6 +846,7 @@ class RotationBuilder:
 
     def get_no_auto_periods(self):
         q = copy.deepcopy(self._q_timed)
+        q.sort(key=lambda x: x[0])
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
-- 
2.43.0


From b8f9a5499b145543d06853803610a7571824980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 08/28] fix: auto-attack delay used effects of the last buff's
 action, not of the auto

The loop variable shadowed the parameter the effects are compiled for.
---
 .../simulator/timeline_builders/rotation_builder.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d9c1494..d743cbe 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -831,10 +831,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From d116f1aa1f7a10d9f7b511dc953fcd487cb2d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 09/28] fix: a hit with chance 0 could crit or direct hit

numpy.random.rand can return exactly 0.0.
---
 ama_xiv_combat_sim/simulator/trackers/damage_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..2d9d824 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -89,7 +89,7 @@ class DamageTracker:
                 + base_damage_range * np.random.rand(num_damage_instances, num_samples)
             )
         )
-        crit_status = crit_rate >= np.random.rand(num_damage_instances, num_samples)
+        crit_status = crit_rate > np.random.rand(num_damage_instances, num_samples)
         total_damage += np.floor(
             np.multiply(
                 total_damage,
@@ -99,7 +99,7 @@ class DamageTracker:
                 ),
             )
         )
-        dh_status = dh_rate >= np.random.rand(num_damage_instances, num_samples)        
+        dh_status = dh_rate > np.random.rand(num_damage_instances, num_samples)        
         total_damage += np.floor(
             np.multiply(
                 total_damage,
-- 
2.43.0


From 137c5a88dc124dec7cb6a1bbc47029e37e3b69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 10/28] fix: trailing DoT ticks were kept when the last event
 is at time 0

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d743cbe..f44c49f 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -395,7 +395,7 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (application_time > last_event_time):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From 5829b7159b56f6503415c31dd4e919e62bf2292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 11/28] fix: a gauge last refreshed at time 0 never expired

---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9ae9a05 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -80,7 +80,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From f34825f1e060703e0695e6e2f954473e80f68bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:19 +0000
Subject: [PATCH 12/28] fix: a future gauge change influenced the current gauge
 value

A later refreshing gain could reset the gauge, or keep an expired one alive.
---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index 9ae9a05..1203f03 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -60,6 +60,8 @@ class JobResourceTracker:
             for start_time, end_time, resource_spec in self.__resources[
                 job_resource_name
             ]:
+                if curr_t < start_time:
+                    continue
 
                 if last_refresh_time is None:
                     last_refresh_time = start_time
@@ -72,7 +74,7 @@ class JobResourceTracker:
                 if resource_spec.refreshes_duration_of_last_gained:
                     last_refresh_time = start_time
 
-                if curr_t < start_time or curr_t > end_time:
+                if curr_t > end_time:
                     continue
 
                 total_resource += resource_spec.change
-- 
2.43.0


From 7227c40ce3d57f71e71de772de443de372a340cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 13/28] fix: buffs and debuffs of all but the first follow-up
 were not flagged

The loop over unconditional follow-ups stopped after the first one in any case.
---
 ama_xiv_combat_sim/simulator/skills/skill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..83c31e3 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,6 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From 4921d323a72ebae981e2ec49afecdf2929fb3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 14/28] fix: the 10th target got no area falloff

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 83c31e3..e0e1c28 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From e71219cb36b769e0b58290b538b9bbc8a1afe764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 15/28] fix: condition-dependent channeling specs could not be
 looked up

Their keys were not turned into condition sets, so get_channeling_spec raised AttributeError.
---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index e0e1c28..a128cd9 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -199,6 +199,10 @@ class Skill:
             object.__setattr__(
                 self, "timing_spec", self.__canonicalize_dict(self.timing_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self, "channeling_spec", self.__canonicalize_dict(self.channeling_spec)
+            )
         if isinstance(self.buff_spec, dict):
             object.__setattr__(
                 self, "buff_spec", self.__canonicalize_dict(self.buff_spec)
-- 
2.43.0


From 431102e5c682cf561d8f7ca898c4faed30782582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 16/28] fix: the last hit could be missing from the damage
 totals

1000 * (1001 / 1000) is less than 1001.
---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..4acef90 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # allow some tolerance for floating point precision
+        timestamp = 1000 * timestamp_in_s + 1e-6
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From a2d0115bd44c345960d0bf0555dac08aebefbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 17/28] fix: auto-attacks ignored that downtime is relative to
 the first damage

They were postponed past windows shifted by the time of the first damage, and so lost to or delayed by downtime that was not there.
---
 .../simulator/timeline_builders/rotation_builder.py   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f44c49f..d1800dd 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -911,8 +911,10 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, downtime_offset):
+        t = downtime_offset + self.forward_to_next_non_downtime_time(
+            t - downtime_offset, auto_target
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -956,6 +958,9 @@ class RotationBuilder:
         )  # autos do not have cast times, so snapshot time should be immediate
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
+        # downtime windows are relative to the start of the fight
+        downtime_offset = snapshot_time if self.__fight_start_time is None else 0
+
         auto_target_ind = 0
         while application_time < last_event_time:
             while (
@@ -1001,7 +1006,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, downtime_offset
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From d63df3cf548cdf5568ab66d3269ea31e0e7c6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 18/28] fix: some weapon delays lost 10 ms to floating point

int(1000 * 2.01) is 2009, which is then truncated to 2000.
---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d1800dd..f221f56 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -940,7 +940,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = int(round(1000 * self.__stats.weapon_delay))  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From a234b33e7a2882f9f07edf9224b1d57dc90db6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 19/28] fix: hit chances could leave the range from 0 to 1

Enough rate bonuses gave chances above 1 and so negative outcome probabilities.
---
 ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
index 1bbe510..2cad9a9 100644
--- a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
+++ b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
@@ -123,6 +123,7 @@ class ComputeDamageUtils:
                 + status_effects[0].dh_rate_add
                 + status_effects[1].dh_rate_add
             )
+            dh_rate = min(max(dh_rate, 0), 1)
 
         crit_bonus = stats.processed_stats.crit_bonus
         if forced_crit:
@@ -135,6 +136,7 @@ class ComputeDamageUtils:
                 + status_effects[0].crit_rate_add
                 + status_effects[1].crit_rate_add
             )
+            crit_rate = min(max(crit_rate, 0), 1)
 
         return (dh_rate, crit_rate, crit_bonus)
 
-- 
2.43.0


From b0bc1b6c94b28e51da81a188a332c8cbaa24c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 20/28] fix: DoT ticks could come 1 ms before the server tick

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f221f56..9c31026 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -388,9 +388,11 @@ class RotationBuilder:
                             dot_start_time = _dot_start_time
                         else:
                             dot_start_time = int(
-                                _dot_start_time
-                                - shave_off
-                                + GameConsts.DOT_TICK_INTERVAL
+                                round(
+                                    _dot_start_time
+                                    - shave_off
+                                    + GameConsts.DOT_TICK_INTERVAL
+                                )
                             )
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
-- 
2.43.0


From 122b311d035e59c28023284f16b8e31ea8acb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:23 +0000
Subject: [PATCH 21/28] fix: same-time hits of one action with different
 effects crashed the damage builder

---
 .../simulator/timeline_builders/damage_builder.py           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..87004e9 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -126,7 +124,7 @@ class DamageBuilder:
                                 tuple(snapshot_status_use),
                                 event_id,
                                 target
-                            ),
+                            )
                         )
             else:
                 if snapshot_status[0] is True:
-- 
2.43.0


From 5373f168a39fbaa162298317d73330081f6ca734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 22/28] fix: later targets of an area hit were resolved before
 earlier events

---
 .../simulator/timeline_builders/damage_builder.py         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 87004e9..09b2e67 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -136,11 +136,6 @@ class DamageBuilder:
                 priority_modifier = (
                     Utils.transform_time_to_prio(event_times.primary) - priority
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -194,7 +189,8 @@ class DamageBuilder:
                             skill_modifier_from_debuffs
                         )
                     q_snapshot_and_applications.add(
-                        new_priority,
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier,
                         application_time,
                         None,
                         skill,
-- 
2.43.0


From cb06c0325ca8bfe7159cc5832cd15a4ef29cd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:25 +0000
Subject: [PATCH 23/28] fix: last snapshot of get_dps_at_intervals when every
 hit snapshots before the fight

---
 .../rotation_analysis/rotation_analysis_utils.py             | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 4acef90..ef9df09 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -21,10 +21,7 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_dps_at_intervals(per_skill_damage, interval_in_s):
-        max_t = -1
-        for sk in per_skill_damage:
-            if sk.snapshot_time > max_t:
-                max_t = sk.snapshot_time
+        max_t = max((sk.snapshot_time for sk in per_skill_damage), default=-1)
 
         res = {'snapshot_time': [],     
                'total_snapshotted_damage': []}
-- 
2.43.0


From e6f5fdd8df989e345ad39a3fd6663b02e2e72074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:53 +0000
Subject: [PATCH 24/28] fix: auto-attack speed ignored actions that end a speed
 effect

---
 .../simulator/timeline_builders/rotation_builder.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 9c31026..41a9407 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -804,11 +804,17 @@ class RotationBuilder:
                 buff_spec.auto_attack_delay_reduction > 0
                 or buff_spec.haste_time_reduction > 0
                 or buff_spec.flat_cast_time_reduction > 0
+                # this may end a speed effect that is active
+                or len(buff_spec.expires_status_effects) > 0
+                or buff_spec.clear_all_status_effects
             )
             debuff_spec_has_speed = debuff_spec is not None and (
                 debuff_spec.auto_attack_delay_reduction > 0
                 or debuff_spec.haste_time_reduction > 0
                 or debuff_spec.flat_cast_time_reduction > 0
+                # this may end a speed effect that is active
+                or len(debuff_spec.expires_status_effects) > 0
+                or debuff_spec.clear_all_status_effects
             )
             if not buff_spec_has_speed and not debuff_spec_has_speed:
                 continue
-- 
2.43.0


From b9661990ecc31f6068763ec0e8c9036f7a61ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:59 +0000
Subject: [PATCH 25/28] fix: auto-attack speed used the default variant of
 conditional speed effects

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 41a9407..a564ab3 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -824,7 +824,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -839,10 +839,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, se_skill in applicable_status_effect_events:
+        for t, se_skill, se_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, se_skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, se_skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From 6040ddb910e78de04b5c4acb0f6c940af3dc7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 26/28] fix: more than 5000 hits could not be simulated

---
 .../simulator/trackers/damage_tracker.py      | 68 ++++++++-----------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 2d9d824..7e69a08 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -5,23 +5,19 @@ from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 
 class DamageTracker:
     def __init__(self):
-        self.base_damage = np.zeros((5000, 1))
-        self.crit_rate = np.zeros((5000, 1))
-        self.crit_bonus = np.zeros((5000, 1))
-        self.dh_rate = np.zeros((5000, 1))
-        self.trait_damage_mult = np.zeros((5000, 1))
-        self.damage_mult = np.ones((5000, 1))
-        self.time = np.zeros(5000)
-        self.potency = np.zeros(5000)
-        self.skill_modifier_condition = [""] * 5000
-        self.status_effects = [""] * 5000
-        self.damage_classes = [""] * 5000
-        self.it = 0
+        self.base_damage = []
+        self.crit_rate = []
+        self.crit_bonus = []
+        self.dh_rate = []
+        self.trait_damage_mult = []
+        self.damage_mult = []
+        self.time = []
+        self.potency = []
+        self.skill_modifier_condition = []
+        self.status_effects = []
+        self.damage_classes = []
         self.is_finalized = False
 
-        # for debugging
-        self.base_damage = np.zeros((5000, 1))
-
     def add_damage(
         self,
         base_damage,
@@ -40,31 +36,27 @@ class DamageTracker:
             raise RuntimeError(
                 "DamageTracker is finalized. Cannot add damage instances."
             )
-        self.base_damage[self.it] = base_damage
-        self.crit_rate[self.it] = crit_rate
-        self.crit_bonus[self.it] = crit_bonus
-        self.dh_rate[self.it] = dh_rate
-        self.trait_damage_mult[self.it] = trait_damage_mult
-        self.damage_mult[self.it] = damage_mult
-        self.time[self.it] = time
-        self.potency[self.it] = potency
-        self.skill_modifier_condition[self.it] = skill_modifier.with_condition
-        self.status_effects[self.it] = status_effects
-        self.damage_classes[self.it] = damage_class
-        self.it += 1
+        self.base_damage.append(base_damage)
+        self.crit_rate.append(crit_rate)
+        self.crit_bonus.append(crit_bonus)
+        self.dh_rate.append(dh_rate)
+        self.trait_damage_mult.append(trait_damage_mult)
+        self.damage_mult.append(damage_mult)
+        self.time.append(time)
+        self.potency.append(potency)
+        self.skill_modifier_condition.append(skill_modifier.with_condition)
+        self.status_effects.append(status_effects)
+        self.damage_classes.append(damage_class)
 
     def finalize(self):
-        self.base_damage = self.base_damage[0 : self.it]
-        self.crit_rate = self.crit_rate[0 : self.it]
-        self.crit_bonus = self.crit_bonus[0 : self.it]
-        self.dh_rate = self.dh_rate[0 : self.it]
-        self.trait_damage_mult = self.trait_damage_mult[0 : self.it]
-        self.damage_mult = self.damage_mult[0 : self.it]
-        self.time = self.time[0 : self.it]
-        self.potency = self.potency[0 : self.it]
-        self.skill_modifier_condition = self.skill_modifier_condition[0 : self.it]
-        self.status_effects = self.status_effects[0 : self.it]
-        self.damage_classes = self.damage_classes[0 : self.it]
+        self.base_damage = np.asarray(self.base_damage, dtype=float).reshape(-1, 1)
+        self.crit_rate = np.asarray(self.crit_rate, dtype=float).reshape(-1, 1)
+        self.crit_bonus = np.asarray(self.crit_bonus, dtype=float).reshape(-1, 1)
+        self.dh_rate = np.asarray(self.dh_rate, dtype=float).reshape(-1, 1)
+        self.trait_damage_mult = np.asarray(self.trait_damage_mult, dtype=float).reshape(-1, 1)
+        self.damage_mult = np.asarray(self.damage_mult, dtype=float).reshape(-1, 1)
+        self.time = np.asarray(self.time, dtype=float)
+        self.potency = np.asarray(self.potency, dtype=float)
         self.is_finalized = True
 
     # For each damage instance, returns the damage distrubtion of that instance
-- 
2.43.0


From 5d503feff2bfe02d147fc2f287bf7b6d599810ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:09 +0000
Subject: [PATCH 27/28] fix: a fight without any damage could not be simulated

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..d47e52f 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -201,18 +201,19 @@ class DamageSimulator:
         def get_all_diffs(x):
             return list(x[i][2] - x[i][1] for i in range(0, len(x)))  
         
+        # one row per damage instance (possibly none), one column per crit/dh outcome
         #damage_ranges[i]: (string to identify crit/dh status, low damage, high damage, probability)
         damage_ranges = self.__damage_tracker.get_damage_ranges_and_probabilities()
 
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )
+        ).reshape(-1, 4)
         all_means = np.asarray(
             list(get_all_sums(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )/2
+        ).reshape(-1, 4)/2
         all_diffs = np.asarray(
             list(get_all_diffs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )
+        ).reshape(-1, 4)
         
         expected_damage = np.sum(all_probs * all_means, axis=1)
         
-- 
2.43.0


From b054a5851874550d316482675bd8542ed84269c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:07 +0000
Subject: [PATCH 28/28] fix: a timeline without any damage could not be built
 with autos enabled

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a564ab3..b217968 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -944,6 +944,10 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
+        if self._q_snapshot_and_applications.get_first_damage_time() is None:
+            # no damage, so the fight (and with it, autos) never starts
+            return
+
         timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
-- 
2.43.0

