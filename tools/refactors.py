"""Behaviour-preserving edits on which the checks must stay quiet.   refactors.py [ID...]
Each is applied to a scratch copy; the named checks run on it with VERIF_REPO.  Not used by any check."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "simulator/"
SE, CT, JR, CH = S + "trackers/status_effect_tracker.py", S + "trackers/combo_tracker.py", S + "trackers/job_resource_tracker.py", S + "trackers/channeling_tracker.py"
EV, DB, RB, UT = S + "timeline_builders/snapshot_and_application_events.py", S + "timeline_builders/damage_builder.py", S + "timeline_builders/rotation_builder.py", S + "utils.py"
R = {}


def r(i, props, *edits):
    R[i] = (props.split(), edits)


r("se-helper", "C05 C06 C16", (SE, """            (_, end_time, num_uses, _) = status_effects[se_skill_name]
            if t > end_time or num_uses == 0:
                del status_effects[se_skill_name]
""", """            if StatusEffectTracker._is_over(t, status_effects[se_skill_name]):
                status_effects.pop(se_skill_name)

    @staticmethod
    def _is_over(t, entry):
        return entry[1] < t or entry[2] == 0
"""))
r("se-dictcomp", "C05 C06 C16", (SE, """        se_skill_names = list(status_effects.keys())
        for se_skill_name in se_skill_names:
            (_, end_time, num_uses, _) = status_effects[se_skill_name]
            if t > end_time or num_uses == 0:
                del status_effects[se_skill_name]
""", """        over = [n for n, (_, end, uses, _) in status_effects.items() if end < t or uses == 0]
        for n in over:
            del status_effects[n]
"""))
r("se-valid-comp", "C05 C16", (SE, """        res = []
        for status_effect_skill_name in status_effects.keys():
            (start_time, end_time, num_uses, spec) = status_effects[
                status_effect_skill_name
            ]
            if curr_t < start_time:
                continue
            if status_effect_skill_name in status_effect_denylist:
                continue
            if (
                spec.skill_allowlist is not None
                and skill_name not in spec.skill_allowlist
            ):
                continue
            res.append(status_effect_skill_name)
        return tuple(res)
""", """        return tuple(
            name
            for name, (start_time, _, _, spec) in status_effects.items()
            if start_time <= curr_t
            and name not in status_effect_denylist
            and (spec.skill_allowlist is None or skill_name in spec.skill_allowlist)
        )
"""))
r("se-prio", "C05 C16", (SE, """        valid_status_effects = list(valid_status_effects)

        for i in range(0, len(self.__status_effects_priority)):
            status_effect = self.__status_effects_priority[i]
            if status_effect in valid_status_effects:
                for j in range(i + 1, len(self.__status_effects_priority)):
                    status_effect_to_delete = self.__status_effects_priority[j]
                    try:
                        idx = valid_status_effects.index(status_effect_to_delete)
                        del valid_status_effects[idx]
                    except ValueError:
                        pass
                break
        return tuple(valid_status_effects)
""", """        for rank, name in enumerate(self.__status_effects_priority):
            if name in valid_status_effects:
                outranked = set(self.__status_effects_priority[rank + 1 :])
                return tuple(x for x in valid_status_effects if x not in outranked)
        return tuple(valid_status_effects)
"""))
r("se-class", "C05 C06 C16 C15", (SE, """            prev_start_time = start_time
            end_time = start_time + status_effect_spec.duration
            status_effects[skill_name] = (
                start_time,
                end_time,
                status_effect_spec.num_uses,
                status_effect_spec,
            )
        else:
""", """            status_effects[skill_name] = StatusEffectTracker._entry(start_time, start_time + status_effect_spec.duration, status_effect_spec.num_uses, status_effect_spec)
        else:
"""), (SE, """    def __expire_named_effect(
""", """    @staticmethod
    def _entry(start, end, uses, spec):
        return (start, end, uses, spec)

    def __expire_named_effect(
"""))
r("se-expire-loop", "C06 C05", (SE, """        if expired_effect_name in self.buffs.keys():
            start_time, _, prev_num_uses, prev_status_effect_spec = self.buffs[
                expired_effect_name
            ]
            self.buffs[expired_effect_name] = (
                start_time,
                t,
                prev_num_uses,
                prev_status_effect_spec,
            )
        if expired_effect_name in self.__get_debuffs(target):
            start_time, _, prev_num_uses, prev_status_effect_spec = self.__get_debuffs(
                target
            )[expired_effect_name]
            self.__get_debuffs(target)[expired_effect_name] = (
                start_time,
                t,
                prev_num_uses,
                prev_status_effect_spec,
            )
""", """        for table in (self.buffs, self.__get_debuffs(target)):
            entry = table.get(expired_effect_name)
            if entry is None:
                continue
            table[expired_effect_name] = (entry[0], t, entry[2], entry[3])
"""))
r("combo-rewrite", "C07 C16", (CT, """    combo_succeeded = True
    for combo_spec in combo_specs:
      if combo_spec.break_all_combos_only:
        self.last_combo_skill_used = {}
        continue
      
      if combo_spec.combo_group not in self.last_combo_skill_used.keys():
        self.last_combo_skill_used[combo_spec.combo_group] = (-math.inf, None)

      curr_combo_succeeded = self.__combo_succeded(curr_t, combo_spec, skill_modifier)
      combo_succeeded = combo_succeeded and curr_combo_succeeded
      self.__update_combo(curr_t, combo_spec, curr_combo_succeeded, skill.name)

    return SimConsts.COMBO_SUCCESS if combo_succeeded else SimConsts.COMBO_FAIL""", """    failures = 0
    for combo_spec in combo_specs:
      if combo_spec.break_all_combos_only:
        self.last_combo_skill_used.clear()
        continue
      self.last_combo_skill_used.setdefault(combo_spec.combo_group, (-math.inf, None))
      ok = self.__combo_succeded(curr_t, combo_spec, skill_modifier)
      if not ok:
        failures += 1
      self.__update_combo(curr_t, combo_spec, ok, skill.name)
    if failures:
      return SimConsts.COMBO_FAIL
    return SimConsts.COMBO_SUCCESS"""))
r("combo-cond", "C07", (CT, """    if combo_spec.combo_auto_succeed or \\
       skill_modifier.force_combo or \\
       len(combo_spec.combo_actions) == 0 or \\
       (self.last_combo_skill_used[combo_spec.combo_group][0] + GameConsts.COMBO_EXPIRATION_TIME >= curr_t and \\
        self.last_combo_skill_used[combo_spec.combo_group][1] in combo_spec.combo_actions):
      return True
    return False
""", """    if combo_spec.combo_auto_succeed or skill_modifier.force_combo:
      return True
    if not combo_spec.combo_actions:
      return True
    last_time, last_name = self.last_combo_skill_used[combo_spec.combo_group]
    in_time = curr_t - last_time <= GameConsts.COMBO_EXPIRATION_TIME
    return in_time and last_name in combo_spec.combo_actions
"""))
r("combo-private-state", "C07", (CT, "last_combo_skill_used", "_last_used"))
r("gauge-helper", "C08 C16", (JR, """                total_resource += resource_spec.change
                total_resource = min(total_resource, job_resource_config.max_value)
                total_resource = max(0, total_resource)
""", """                total_resource = self._clamp(total_resource + resource_spec.change, job_resource_config.max_value)
"""), (JR, """    def get_resource_timeline(self, name):
""", """    @staticmethod
    def _clamp(value, top):
        return max(0, min(value, top))

    def get_resource_timeline(self, name):
"""))
r("gauge-sorted", "C08 C16", (JR, """            self.__resources[job_resource_name].sort(key=lambda x: x[0])

            last_refresh_time = None
            for start_time, end_time, resource_spec in self.__resources[
                job_resource_name
            ]:
                if curr_t < start_time:
                    continue
""", """            last_refresh_time = None
            happened = [c for c in self.__resources[job_resource_name] if c[0] <= curr_t]
            happened.sort(key=lambda c: c[0])
            for start_time, end_time, resource_spec in happened:
"""))
r("gauge-insort", "C08 C16", (JR, """            self.__resources[job_resource_name].sort(key=lambda x: x[0])
""", """            timeline = sorted(self.__resources[job_resource_name], key=lambda entry: entry[0])
"""), (JR, """            for start_time, end_time, resource_spec in self.__resources[
                job_resource_name
            ]:
                if curr_t < start_time:
                    continue
""", """            for start_time, end_time, resource_spec in timeline:
                if start_time > curr_t:
                    break
"""))
r("channel-end", "C09 C17", (CH, """        if channeling_spec:
            if self.__is_channeling():
                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
            self.__start_channeling(t, channeling_spec)
        else:
            if self.__is_channeling():
                if skill.name in self.__curr_channeling_spec.skill_allowlist:
                    self.__curr_num_uses -= 1
                    if self.__curr_num_uses > 0:
                        # if you're channeling, the only way to get here  is to be in the skill_allowlist AND not exhaust all counts
                        return

                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
""", """        if self.__is_channeling():
            if not channeling_spec and skill.name in self.__curr_channeling_spec.skill_allowlist:
                self.__curr_num_uses -= 1
                if self.__curr_num_uses > 0:
                    return
            self.__end_channeling(self._natural_end(t))
        if channeling_spec:
            self.__start_channeling(t, channeling_spec)

    def _natural_end(self, t):
        return min(t, self.__start_channeling_time + self.__curr_channeling_spec.duration)
"""))
r("events-min", "C12 C18 C14 C17", (EV, """        first_damage_time = None
        for _, event_times, skill, skill_modifier, _, _, _, _, _, _ in self.__q:
            if skill.get_damage_spec(skill_modifier) is None:
                continue
            curr_time = (
                event_times.primary
                if event_times.secondary is None
                else event_times.secondary
            )
            first_damage_time = (
                curr_time
                if first_damage_time is None
                else min(curr_time, first_damage_time)
            )
        return first_damage_time
""", """        return min(
            (
                self._application_time(e)
                for e in self.__q
                if e.skill.get_damage_spec(e.skill_modifier) is not None
            ),
            default=None,
        )

    @staticmethod
    def _application_time(event):
        times = event.event_times
        return times.primary if times.secondary is None else times.secondary
"""), (EV, """        last_event_time = None
        for _, event_times, _, _, _, _, _, _, _, _ in self.__q:
            curr_time = (
                event_times.primary
                if event_times.secondary is None
                else event_times.secondary
            )
            last_event_time = (
                curr_time
                if last_event_time is None
                else max(curr_time, last_event_time)
            )
        return last_event_time
""", """        if not self.__q:
            return None
        return max(self._application_time(e) for e in self.__q)
"""))
r("events-getq", "C12 C16 C13", (EV, """        res = copy.deepcopy(self.__q)
        res.sort()
        return res
""", """        return sorted(copy.deepcopy(self.__q))
"""), (EV, """        return len(self.__q) == 0
""", """        return not self.__q
"""), (EV, """            event_id = self.__event_id
            self.__event_id += 1
""", """            event_id = self.__next_id()
"""), (EV, """    def get_first_damage_time(self):
""", """    def __next_id(self):
        self.__event_id += 1
        return self.__event_id - 1

    def get_first_damage_time(self):
"""))
r("events-sortedlist", "C12 C16 C13 C18", (EV, """        heapq.heappush(
            self.__q,
            self.__create_event(""", """        bisect.insort_right(
            self.__q,
            self.__create_event("""), (EV, "        return heapq.heappop(self.__q)\n", "        return self.__q.pop(0)\n"), (EV, "import heapq\n", "import heapq\nimport bisect\n"))
r("utils-best", "C10 C23", (UT, """        max_match = -1
        best_keys = []
        for key in keys:
            if len(key) < max_match:
                continue
            if key.issubset(with_condition):
                if max_match < len(with_condition):
                    max_match = len(key)
                    best_keys = [
                        key,
                    ]
                else:
                    best_keys.append(key)
        if len(best_keys) == 0:
            return frozenset([SimConsts.DEFAULT_CONDITION])

        assert (
            len(best_keys) == 1
        ), "Did not find exactly one match. matches:{}, Keys: {}, with_condition {}".format(
            best_keys, keys, with_condition
        )
        return best_keys[0]
""", """        best = None
        for key in keys:
            if not key <= with_condition:
                continue
            if best is None or len(key) >= len(best):
                best = key
        if best is None:
            return frozenset([SimConsts.DEFAULT_CONDITION])
        return best
"""))
r("utils-greatest", "C11", (UT, """        st = tuple(k for k in vals if k <= query_val)
        if len(st) == 0:
            raise ValueError(f"No values found for query val: {query_val}")
        return max(st)
""", """        best = None
        for k in vals:
            if k <= query_val and (best is None or k > best):
                best = k
        if best is None:
            raise ValueError(f"No values found for query val: {query_val}")
        return best
"""))
r("utils-sorted", "C11", (UT, """        st = tuple(k for k in vals if k <= query_val)
        if len(st) == 0:
            raise ValueError(f"No values found for query val: {query_val}")
        return max(st)
""", """        candidates = sorted(k for k in vals if not k > query_val)
        if not candidates:
            raise ValueError(f"No values found for query val: {query_val}")
        return candidates[-1]
"""))
r("utils-trunc", "C15 C17", (UT, """        modifier = math.pow(10, digit_to_round_to - 1)
        return int(modifier * np.floor(x / modifier))
""", """        modifier = 10 ** (digit_to_round_to - 1)
        return int(np.floor(x / modifier)) * modifier
"""))
r("db-helper", "C16", (DB, """                for i, target in enumerate(targets):
                    if len(targets) > 1:
                        skill_modifier_to_use = copy.deepcopy(skill_modifier)
                        skill_modifier_to_use.add_to_condition(f"Target {i+1}")
                        snapshot_status_use = copy.deepcopy(snapshot_status)
                        # add targetting
                        application_time = (
                            curr_time + i * GameConsts.MULTI_TARGET_DELAY_PER_TARGET
                        )  # modify app time?
                    else:
                        skill_modifier_to_use = skill_modifier
                        snapshot_status_use = snapshot_status
                        # add targetting
                        application_time = curr_time  # modify app time?
""", """                for i, target in enumerate(targets):
                    skill_modifier_to_use, snapshot_status_use, application_time = (
                        self._for_target(i, len(targets), skill_modifier, snapshot_status, curr_time)
                    )
"""), (DB, """    # output is a list, sorted by timestamp of damage""", """    @staticmethod
    def _for_target(i, n, skill_modifier, snapshot_status, t):
        if n == 1:
            return skill_modifier, snapshot_status, t
        own = copy.deepcopy(skill_modifier)
        own.add_to_condition(f"Target {i+1}")
        return own, copy.deepcopy(snapshot_status), t + GameConsts.MULTI_TARGET_DELAY_PER_TARGET * i

    # output is a list, sorted by timestamp of damage"""))
r("db-while", "C16", (DB, """        while not q_snapshot_and_applications.is_empty():
            [
                priority,
                event_times,
                skill,
                skill_modifier,
                snapshot_status,
                targets,
                event_id,
                job_resources_added,
                job_conditional_processed,
                combo_contional_processed,
            ] = q_snapshot_and_applications.get_next()

            curr_time = event_times.primary
""", """        while True:
            if q_snapshot_and_applications.is_empty():
                break
            event = q_snapshot_and_applications.get_next()
            priority, event_times, skill = event.priority, event.event_times, event.skill
            skill_modifier, snapshot_status, targets = event.skill_modifier, event.snapshot_status, event.targets
            event_id = event.event_id
            job_resources_added = event.job_resources_added
            job_conditional_processed = event.job_conditional_processed
            combo_contional_processed = event.combo_conditional_processed

            curr_time = event_times.primary
"""))
r("db-sorted", "C16", (DB, """        q.sort(key=lambda x: x[0])
        return q
""", """        return sorted(q, key=lambda instance: instance[0])
"""))
r("rb-consolidate", "C14", (RB, """        consolidated_dots = []
        for i in range(0, len(base_dot_times)):
            curr_start_time, curr_end_time, parent_snapshot_time, priority_modifier = (
                base_dot_times[i]
            )
            if i == len(base_dot_times) - 1:
                possible_end_time = math.inf
            else:
                # We make the current dot end here and don't merge in, because the new
                # dot may snapshot a different set of buffs/debuffs.
                possible_end_time = base_dot_times[i + 1][0]
            end_time = min(curr_end_time, possible_end_time)
            consolidated_dots.append(
                (curr_start_time, end_time, parent_snapshot_time, priority_modifier)
            )
        return consolidated_dots
""", """        consolidated_dots = []
        next_starts = [x[0] for x in base_dot_times[1:]] + [math.inf]
        for (start, end, snap, prio), next_start in zip(base_dot_times, next_starts):
            consolidated_dots.append((start, min(end, next_start), snap, prio))
        return consolidated_dots
"""))
r("rb-tick-while", "C14", (RB, """                    for application_time in range(
                        dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                    ):
                        if (last_event_time is not None) and (application_time > last_event_time):
                            continue
""", """                    next_tick = dot_start_time
                    while next_tick < dot_end_time:
                        application_time = next_tick
                        next_tick = next_tick + GameConsts.DOT_TICK_INTERVAL
                        if (last_event_time is not None) and (application_time > last_event_time):
                            break
"""))
r("rb-dotq", "C14 C18", (RB, """            if target not in self._q_dot_skills:
                self._q_dot_skills[target] = {}
            if follow_up_dot_skill not in self._q_dot_skills[target]:
                self._q_dot_skills[target][follow_up_dot_skill] = []

            self._q_dot_skills[target][follow_up_dot_skill].append(
                (
                    parent_snapshot_time,
                    parent_application_time,
                    priority_modifier,
                )
            )
""", """            per_target = self._q_dot_skills.setdefault(target, {})
            per_target.setdefault(follow_up_dot_skill, []).append(
                (parent_snapshot_time, parent_application_time, priority_modifier)
            )
"""))

DT, DS, KT, RA, CS = S + "trackers/damage_tracker.py", S + "damage_simulator.py", "kill_time_estimator/kill_time_estimator.py", "rotation_analysis/rotation_analysis_utils.py", S + "rotation_import_utils/csv_utils.py"
SK, SL, SM = S + "skills/skill.py", S + "skills/skill_library.py", S + "skills/skill_modifier.py"
r("rb-hoist-autos", "C17 C18", (RB, """        auto_target_ind = 0
        while application_time < last_event_time:
""", """        no_auto_periods = self.get_no_auto_periods()
        speed_status_effects_timeline = self.__assemble_speed_status_effects_timeline()
        auto_target_ind = 0
        while application_time < last_event_time:
"""), (RB, """            speed_status_effects_timeline = self.__assemble_speed_status_effects_timeline()
            (
                curr_buffs_and_skill_modifier,""", """            (
                curr_buffs_and_skill_modifier,"""), (RB, """            no_auto_periods = self.get_no_auto_periods()
            snapshot_time = self.__get_next""", """            snapshot_time = self.__get_next"""))
r("rb-auto-target", "C17 C18", (RB, """            while (
                auto_target_ind < len(timestamps_and_main_target)
                and timestamps_and_main_target[auto_target_ind][0] <= snapshot_time
            ):
                auto_target_ind += 1
            auto_target_ind = max(0, auto_target_ind - 1)
            auto_target = timestamps_and_main_target[auto_target_ind][1]
""", """            auto_target = timestamps_and_main_target[0][1]
            for switch_time, switch_target in timestamps_and_main_target:
                if switch_time > snapshot_time:
                    break
                auto_target = switch_target
"""))
r("rb-auto-next", "C17", (RB, """        intersecting_no_auto_periods = list(
            filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
        )
        return (
            t
            if len(intersecting_no_auto_periods) == 0
            else max(x[1] for x in intersecting_no_auto_periods)            
        )
""", """        return max((end for start, end in no_auto_periods if start <= t <= end), default=t)
"""))
r("rb-downtime-any", "C13 C17", (RB, """        for r in self.__downtime_windows.get(target, tuple()):
            # None indicates filtering all damage types
            is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
            if (r[0] <= t < r[1]) and is_filtered_damage_type:
                return True
        return False
""", """        return any(
            start <= t < end and kind in (None, damage_class)
            for start, end, kind in self.__downtime_windows.get(target, ())
        )
"""))
r("rb-downtime-comp", "C13 C18", (RB, """            all_valid_targets = []
            for target in targets:
                skill_damage_spec = skill.get_damage_spec(skill_modifier)
                if skill_damage_spec is not None and (
                    self.__filter_by_downtime_range_and_damage_class(
                        application_time, target, skill_damage_spec.damage_class
                    )
                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, target, skill_damage_spec.damage_class
                    )
                ):
                    continue
                else:
                    all_valid_targets.append(target)
                continue
            if len(all_valid_targets) > 0:
""", """            skill_damage_spec = skill.get_damage_spec(skill_modifier)

            def hittable(target):
                if skill_damage_spec is None:
                    return True
                kind = skill_damage_spec.damage_class
                return not any(
                    self.__filter_by_downtime_range_and_damage_class(t, target, kind)
                    for t in (snapshot_time, application_time)
                )

            all_valid_targets = [target for target in targets if hittable(target)]
            if all_valid_targets:
"""))
r("rb-shift", "C18", (RB, """            primary_time = event_times.primary
            secondary_time = event_times.secondary
            if primary_time is not None:
                primary_time -= first_damage_time
                priority -= Utils.transform_time_to_prio(first_damage_time)
            if secondary_time is not None:
                secondary_time -= first_damage_time
            res.add(
                priority,
                primary_time,
                secondary_time,
""", """            secondary_time = (
                None if event_times.secondary is None else event_times.secondary - first_damage_time
            )
            res.add(
                priority - Utils.transform_time_to_prio(first_damage_time),
                event_times.primary - first_damage_time,
                secondary_time,
"""), (RB, """        for i in range(0, len(self.__q_button_press_timing)):
            self.__q_button_press_timing[i][0] -= first_damage_time
""", """        for press in self.__q_button_press_timing:
            press[0] -= first_damage_time
"""))
r("rb-prepare", "C15 C18 C07 C08", (RB, """            se_tracker.expire_status_effects(curr_t)
            curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
            curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(curr_t, skill)

            curr_buffs, skill_modifier_from_buffs = (
                curr_buffs_and_skill_modifier[0],
                curr_buffs_and_skill_modifier[1],
            )
            curr_debuffs, skill_modifier_from_debuffs = (
                curr_debuffs_and_skill_modifier[0],
                curr_debuffs_and_skill_modifier[1],
            )
            job_resource_conditional = job_resource_tracker.compile_job_resources(
                curr_t, skill
            )

            skill_modifier = copy.deepcopy(skill_modifier)
            skill_modifier.add_to_condition(skill_modifier_from_buffs)
            skill_modifier.add_to_condition(skill_modifier_from_debuffs)
            skill_modifier.add_to_condition(job_resource_conditional)

            combo_conditional = combo_tracker.compile_and_update_combo(
                curr_t, skill, skill_modifier
            )
            skill_modifier.add_to_condition(combo_conditional)
            try:
                skill_modifier.add_to_condition(
                    Utils.get_positional_condition(skill, skill_modifier)
                )
            except ValueError as v:
                print(str(v))

            timing_spec""", """            skill_modifier, curr_buffs, curr_debuffs = self._resolve(
                curr_t, skill, skill_modifier, se_tracker, job_resource_tracker, combo_tracker
            )
            timing_spec"""), (RB, """    def __process_q_timed(self):
""", """    def _resolve(self, t, skill, skill_modifier, se_tracker, job_resource_tracker, combo_tracker):
        se_tracker.expire_status_effects(t)
        buffs, from_buffs = se_tracker.compile_buffs(t, skill)
        debuffs, from_debuffs = se_tracker.compile_debuffs(t, skill)
        skill_modifier = copy.deepcopy(skill_modifier)
        for conditional in (from_buffs, from_debuffs, job_resource_tracker.compile_job_resources(t, skill)):
            skill_modifier.add_to_condition(conditional)
        skill_modifier.add_to_condition(
            combo_tracker.compile_and_update_combo(t, skill, skill_modifier)
        )
        try:
            skill_modifier.add_to_condition(Utils.get_positional_condition(skill, skill_modifier))
        except ValueError as v:
            print(str(v))
        return skill_modifier, buffs, debuffs

    def __process_q_timed(self):
"""))
r("rb-seq-tail", "C15", (RB, """            if skill.is_GCD:
                self.__process_skill(
                    curr_t,
                    skill,
                    skill_modifier,
                    se_tracker,
                    job_resource_tracker,
                    curr_buffs,
                    targets,
                )

                trait_haste""", """            self.__process_skill(
                curr_t, skill, skill_modifier, se_tracker, job_resource_tracker, curr_buffs, targets
            )
            lock = timing_spec.animation_lock
            if skill.is_GCD:
                trait_haste"""), (RB, """                curr_t += cast_time + timing_spec.animation_lock
            else:
                self.__process_skill(
                    curr_t,
                    skill,
                    skill_modifier,
                    se_tracker,
                    job_resource_tracker,
                    curr_buffs,
                    targets,
                )
                curr_t += timing_spec.animation_lock
""", """                lock = cast_time + lock
            curr_t += lock
"""))
r("rb-timed-sorted", "C15 C18 C07", (RB, """        q = copy.deepcopy(self._q_timed)
        q.sort(key=lambda x: x[0])
        while len(q) > 0:
            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
""", """        for curr_t, skill, skill_modifier, job_class, targets in sorted(
            copy.deepcopy(self._q_timed), key=lambda x: x[0]
        ):
"""))
r("rb-export", "C19", (RB, """        for tmp in self.__q_button_press_timing:
            print(f"{tmp[0] / 1000}, {tmp[1]}, {tmp[2]}, {tmp[3]}")""", """        for time_ms, *rest in self.__q_button_press_timing:
            seconds = time_ms / 1000
            print(", ".join([f"{seconds}"] + [f"{x}" for x in rest]))"""))
r("dt-helper", "C03 C04 C20", (DT, """        low_crit, _, _ = self.__get_damage(
            low_init_base_damage,
            self.crit_bonus,
            1,
            0,
            self.damage_mult,
            1,
            base_damage_range=0,
        )
""", """        low_crit = self._fixed(low_init_base_damage, 1, 0)
"""), (DT, """    def get_damage_ranges_and_probabilities(self):
""", """    def _fixed(self, base, crit, dh):
        damage, _, _ = self.__get_damage(
            base, self.crit_bonus, crit, dh, self.damage_mult, 1, base_damage_range=0
        )
        return damage

    def get_damage_ranges_and_probabilities(self):
"""))
r("dt-roll", "C03 C04 C20", (DT, """        total_damage += np.floor(
            np.multiply(
                total_damage,
                GameConsts.DH_DAMAGE_MULT_BONUS
                * dh_status,
            )
        )
        total_damage = np.floor(np.multiply(total_damage, self.trait_damage_mult))
        total_damage = np.floor(np.multiply(total_damage, damage_mult))
""", """        dh_bonus = GameConsts.DH_DAMAGE_MULT_BONUS * dh_status
        total_damage = total_damage + np.floor(total_damage * dh_bonus)
        for mult in (self.trait_damage_mult, damage_mult):
            total_damage = np.floor(total_damage * mult)
"""))
r("dt-res", "C03 C04", (DT, """        res = [tuple()] * num_damage_instances
        for i in range(0, num_damage_instances):
            res[i] = (
""", """        res = []
        for i in range(0, num_damage_instances):
            row = (
"""), (DT, """                    crit_dh_probability[i][0],
                ],
            )
        return res
""", """                    crit_dh_probability[i][0],
                ],
            )
            res.append(row)
        return res
"""))
r("ds-report", "C04 C21", (DS, """        res = [
            (
                skill_names[i],
                damage_ranges[i][0],
                damage_ranges[i][1],
                damage_ranges[i][2],
                damage_ranges[i][3],
            )
            for i in range(0, len(skill_names))
        ]
        return res
""", """        return [(name, *ranges[:4]) for name, ranges in zip(skill_names, damage_ranges)]
"""), (DS, """            return list(x[i][1] + x[i][2] for i in range(0, len(x)))""", """            return [low + high for _, low, high, _ in x]"""))
r("ds-snap", "C04", (DS, """        rot = rb.get_skill_timing().get_q()
        event_id_to_snapshot_time = {}
        for x in rot:
            event_id, snapshot_time, skill_name = (
                x.event_id,
                x.event_times.primary,
                x.skill.name,
            )
            event_id_to_snapshot_time[event_id] = (snapshot_time, skill_name)
""", """        event_id_to_snapshot_time = {
            x.event_id: (x.event_times.primary, x.skill.name)
            for x in rb.get_skill_timing().get_q()
        }
"""))
r("ds-enum", "C04 C20", (DS, """        self.__target = [0] * len(self.__dmg_instances)
        i = 0
""", """        self.__target = []
"""), (DS, """            self.__target[i] = target
            i += 1
""", """            self.__target.append(target)
"""))
r("kt-argmax", "C20", (KT, """    kt_indexes_with_none = [ np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0][0] if len(np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0] > 0) else None for i in range(0, cumsum_damage.shape[1])]
    kt_indexes = list(filter(lambda x: x is not None, kt_indexes_with_none))
""", """    kt_indexes = []
    for i in range(0, cumsum_damage.shape[1]):
      dead = np.nonzero(cumsum_damage[:,i] >= self.__boss_hp)[0]
      if len(dead) > 0:
        kt_indexes.append(dead[0])
"""))
r("kt-enum", "C20", (KT, """    for i in range(0, len(self.__all_rotations)):
      rb = self.__all_rotations[i]
      if""", """    for i, rb in enumerate(self.__all_rotations):
      if"""), (KT, """      if all_damage is None:
        all_damage = damage_matrix
      else:
        all_damage = np.concatenate((all_damage, damage_matrix), axis=0)
""", """      all_damage = damage_matrix if all_damage is None else np.vstack((all_damage, damage_matrix))
"""))
r("kt-lb", "C20", (KT, """    for i in range(0, len(per_skill_damage)):
      if 'LB' in per_skill_damage[i].skill_name:
        condition = ",".join(per_skill_damage[i].skill_modifier_condition)
        damage_matrix[i,:] = KillTimeEstimator.get_lb_damage(condition, damage_matrix.shape[1])
""", """    num_samples = damage_matrix.shape[1]
    for i, row in enumerate(per_skill_damage):
      if 'LB' not in row.skill_name:
        continue
      damage_matrix[i,:] = KillTimeEstimator.get_lb_damage(",".join(row.skill_modifier_condition), num_samples)
"""))
r("ra-sum", "C21", (RA, """        res = 0
        for sk in per_skill_damage:
            if sk.snapshot_time <= timestamp:
                res += sk.expected_damage
        return res
""", """        return sum(sk.expected_damage for sk in per_skill_damage if sk.snapshot_time <= timestamp)
"""))
r("ra-zip", "C21", (RA, """        for t in timestamps:
            tot_damage = (
                RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp(
                    per_skill_damage, t
                )
            )
            res['snapshot_time'].append(t)            
            res['total_snapshotted_damage'].append(round(tot_damage,2))
        return res
""", """        before = RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp
        res['snapshot_time'] = timestamps
        res['total_snapshotted_damage'] = [round(before(per_skill_damage, t), 2) for t in timestamps]
        return res
"""))
r("csv-iterrows", "C19", (CS, """        for i in range(0, len(df)):
            t = df["time"][i]
            skill_name = df["skill_name"][i]
            job_class = None if df["job_class"][i] == "" else df["job_class"][i]
            skill_conditional = df["skill_conditional"][i]
            targets = (
                None
                if "targets" not in df or df["targets"][i] == ""
                else df["targets"][i]
            )
""", """        for row in df.to_dict("records"):
            t = row["time"]
            skill_name = row["skill_name"]
            job_class = row["job_class"] or None
            skill_conditional = row["skill_conditional"]
            targets = row.get("targets") or None
"""))
r("csv-mod", "C19", (CS, """            if sk.skill_conditional is None or sk.skill_conditional == "":
                skill_modifier = None
            else:
                skill_modifier = SkillModifier(with_condition=sk.skill_conditional)
""", """            skill_modifier = (
                SkillModifier(with_condition=sk.skill_conditional) if sk.skill_conditional else None
            )
"""))
r("skill-variant", "C10 C15 C16 C23 C24", (SK, """        if self.damage_spec is None or isinstance(self.damage_spec, DamageSpec):
            return self.damage_spec

        key_to_use = Utils.get_best_key(
            self.damage_spec.keys(), skill_modifier.with_condition
        )
        return self.damage_spec[key_to_use]
""", """        return self._variant(self.damage_spec, skill_modifier)

    @staticmethod
    def _variant(spec, skill_modifier):
        if not isinstance(spec, dict):
            return spec
        return spec[Utils.get_best_key(spec.keys(), skill_modifier.with_condition)]
"""), (SK, """        key_to_use = Utils.get_best_key(
            self.timing_spec.keys(), skill_modifier.with_condition
        )
        return self.timing_spec[key_to_use]
""", """        return self._variant(self.timing_spec, skill_modifier)
"""))
r("lib-setdefault", "C22", (SL, """        if job_name not in self.__skills:
            self.__skills[job_name] = {}

        if job_name not in self.__status_effect_priority:
            self.__status_effect_priority[job_name] = tuple()

        if job_name not in self.__job_resources:
            self.__job_resources[job_name] = {}

        if job_name not in self.__combo_breakers:
            self.__combo_breakers[job_name] = {}
""", """        for table in (self.__skills, self.__job_resources, self.__combo_breakers):
            table.setdefault(job_name, {})
        self.__status_effect_priority.setdefault(job_name, tuple())
"""), (SL, """        for resource in all_class_skills.get_resources():
            self.add_resource(resource[0], resource[1])""", """        for name, settings in all_class_skills.get_resources():
            self.add_resource(name, settings)"""))
r("lib-one-table", "C22", (SL, """        skill_name = skill.name
        if skill_name in self.__skills[self.__current_job_class]:
            raise""", """        skills = self.__skills[self.__current_job_class]
        skill_name = skill.name
        if skills.get(skill_name) is not None:
            raise"""), (SL, """        self.__skills[self.__current_job_class][skill.name] = skill
""", """        skills[skill_name] = skill
"""))
r("chan-end-early", "C09 C17", (CH, """        channeling_spec = skill.get_channeling_spec(skill_modifier)
        if channeling_spec:
            if self.__is_channeling():
                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
            self.__start_channeling(t, channeling_spec)
        else:
            if self.__is_channeling():
                if skill.name in self.__curr_channeling_spec.skill_allowlist:
                    self.__curr_num_uses -= 1
                    if self.__curr_num_uses > 0:
                        # if you're channeling, the only way to get here  is to be in the skill_allowlist AND not exhaust all counts
                        return

                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
""", """        channeling_spec = skill.get_channeling_spec(skill_modifier)
        if self.__is_channeling():
            if not channeling_spec and skill.name in self.__curr_channeling_spec.skill_allowlist:
                self.__curr_num_uses -= 1
                if self.__curr_num_uses > 0:
                    return
            natural_end = self.__start_channeling_time + self.__curr_channeling_spec.duration
            self.__end_channeling(natural_end if natural_end < t else t)
        if channeling_spec:
            self.__start_channeling(t, channeling_spec)
"""))
r("chan-none-reset", "C09 C17", (CH, """        self.__start_channeling_time = None
        self.__curr_channeling_spec = None
        self.__curr_num_uses = math.inf

    def __start""", """        self.__start_channeling_time = None

    def __start"""))
SK = S + "skills/skill.py"
r("rb-auto-loop", "C17 C18", (RB, """        auto_target_ind = 0
        while application_time < last_event_time:
            while (
                auto_target_ind < len(timestamps_and_main_target)
                and timestamps_and_main_target[auto_target_ind][0] <= snapshot_time
            ):
                auto_target_ind += 1
            auto_target_ind = max(0, auto_target_ind - 1)
            auto_target = timestamps_and_main_target[auto_target_ind][1]
""", """        no_auto_periods = self.get_no_auto_periods()
        while True:
            if application_time >= last_event_time:
                break
            auto_target = self._auto_target_at(timestamps_and_main_target, snapshot_time)
"""), (RB, """            no_auto_periods = self.get_no_auto_periods()
            snapshot_time = self""", """            snapshot_time = self"""), (RB, """    # Autos, if enabled, always start at first event application time.
""", """    @staticmethod
    def _auto_target_at(timestamps_and_main_target, t):
        res = timestamps_and_main_target[0][1]
        for timestamp, target in timestamps_and_main_target:
            if timestamp > t:
                break
            res = target
        return res

    # Autos, if enabled, always start at first event application time.
"""))
r("rb-auto-speed", "C17", (RB, """            buff_spec_has_speed = buff_spec is not None and (
                buff_spec.auto_attack_delay_reduction > 0
                or buff_spec.haste_time_reduction > 0
                or buff_spec.flat_cast_time_reduction > 0
                # this may end a speed effect that is active
                or len(buff_spec.expires_status_effects) > 0
                or buff_spec.clear_all_status_effects
            )
            debuff_spec_has_speed = debuff_spec is not None and (
                debuff_spec.auto_attack_delay_reduction > 0
                or debuff_spec.haste_time_reduction > 0
                or debuff_spec.flat_cast_time_reduction > 0
                # this may end a speed effect that is active
                or len(debuff_spec.expires_status_effects) > 0
                or debuff_spec.clear_all_status_effects
            )
            if not buff_spec_has_speed and not debuff_spec_has_speed:
                continue
""", """            if not any(RotationBuilder._has_speed(x) for x in (buff_spec, debuff_spec)):
                continue
"""), (RB, """    def __get_applicable_status_effects(
""", """    @staticmethod
    def _has_speed(spec):
        if spec is None:
            return False
        return bool(
            spec.clear_all_status_effects
            or spec.expires_status_effects
            or max(spec.auto_attack_delay_reduction, spec.haste_time_reduction) > 0
            or spec.flat_cast_time_reduction > 0
        )

    def __get_applicable_status_effects(
"""))
r("skill-flags", "C24", (SK, """            res = False
            # check if there is a party effect on main skill
            spec = getattr(self, spec_to_use)
            if spec is not None:
                if isinstance(spec, StatusEffectSpec):
                    res = True
                elif isinstance(spec, dict):
                    for _, se in spec.items():
                        if se is not None:
                            res = True
                            break
""", """            spec = getattr(self, spec_to_use)
            if isinstance(spec, dict):
                res = any(se is not None for se in spec.values())
            else:
                res = isinstance(spec, StatusEffectSpec)
"""), (SK, """                for follow_up in self.follow_up_skills:
                    if getattr(follow_up.skill, spec_to_use) is not None:
                        res = True
                        break
            elif""", """                res = res or any(
                    getattr(follow_up.skill, spec_to_use) is not None
                    for follow_up in self.follow_up_skills
                )
            elif"""))
r("skill-flags2", "C24", (SK, """                for follow_up in self.follow_up_skills:
                    sp = getattr(follow_up.skill, spec_to_use)
                    if isinstance(sp, dict):
                        for _, v in sp.items():
                            if v is not None and v.is_party_effect:
                                res = True
                                break
                    elif sp is not None and sp.is_party_effect:
                        res = True
""", """                for follow_up in self.follow_up_skills:
                    if self._gives_party_effect(getattr(follow_up.skill, spec_to_use)):
                        res = True
                        break
"""), (SK, """    def __set_party_status_effect_stats(self):
""", """    @staticmethod
    def _gives_party_effect(spec):
        specs = spec.values() if isinstance(spec, dict) else [spec]
        return any(x.is_party_effect for x in specs if x is not None)

    def __set_party_status_effect_stats(self):
"""))
r("utils-positional", "C23", (UT, """        for to_try in [
            skill_modifier,
            skill_modifier_no_pos,
            skill_modifier_no_combo,
            skill_modifier_no_combo_no_pos,
        ]:
            potency_key = Utils.get_best_key(
                damage_spec_to_use.keys(), to_try.with_condition
            )
            potency = damage_spec_to_use[potency_key].potency
            if damage_spec_to_use[potency_key].use_min_potency:
                min_potency_to_use = damage_spec_to_use[potency_key].use_min_potency
            else:
                min_potency_to_use = min_potency
            potential_bonus_potency = int(
                100 * (potency - min_potency_to_use) / potency
            )
            if potential_bonus_potency == init_skill_modifier.bonus_percent:
""", """        def bonus_of(spec):
            low = spec.use_min_potency or min_potency
            return int(100 * (spec.potency - low) / spec.potency)

        candidates = (
            skill_modifier,
            skill_modifier_no_pos,
            skill_modifier_no_combo,
            skill_modifier_no_combo_no_pos,
        )
        for to_try in candidates:
            spec = damage_spec_to_use[
                Utils.get_best_key(damage_spec_to_use.keys(), to_try.with_condition)
            ]
            if bonus_of(spec) == init_skill_modifier.bonus_percent:
"""))


def one(i):
    props, edits = R[i]
    d = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for f, old, new in edits:
            p = d + "/ama_xiv_combat_sim/" + f
            t = open(p).read()
            if old not in t:
                return i, ["PATTERN NOT FOUND in " + f]
            open(p, "w").write(t.replace(old, new))
        sys.path.insert(0, V + "/tools")
        import plant
        n, fails = plant.run_tests(d)
        if n < 442:
            out.append("TESTS: %d passed, %s" % (n, fails[:3]))
        for pr in props:
            p = subprocess.run(["python3-vt", V + "/check.py", pr, "--tier", "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/out"), cwd=V)
            lines = [l for l in p.stdout.splitlines() if "undecided:" in l or "failed ob" in l or "VIOL" in l]
            out.append("%s rc=%d %s" % (pr, p.returncode, " | ".join(x.strip()[:260] for x in lines)))
    finally:
        shutil.rmtree(d)
    return i, out


if __name__ == "__main__":
    ids = sys.argv[1:] or list(R)
    with ThreadPoolExecutor(2) as ex:
        for i, out in ex.map(one, ids):
            print(i)
            for l in out:
                print("    " + l)
            sys.stdout.flush()
