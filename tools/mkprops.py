#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
S = "ama_xiv_combat_sim/simulator/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Pre-roll damage follows the game's damage formula for its kind",
  "For every gear set, job, level, party size, action potency and set of active effects, the pre-roll damage of an action equals the game's formula for its kind (direct, magical DoT, physical DoT, auto-attack, pet) with every truncation in its place: main stat after effects and party bonus, weapon damage, determination (with direct hit folded in when a direct hit is forced), tenacity for tanks, speed for DoTs and weapon-skill autos, the bonus for forced hits, and the action's own multiplier. An action of zero potency does exactly 0, any other damaging action at least 1, and a healer or caster auto-attack without a strength value is refused with an error.",
  ["inputs", "configurations"], "all numeric stats, all jobs and both levels, all potencies and all buff/debuff combinations",
  "Tests sample a few dozen stat/skill pairs at one gear set per job with a tolerance; a wrong truncation, level constant or branch for another job, level or buff combination is invisible to them.",
  [S+"calcs/compute_damage_utils.py", S+"calcs/stat_fns.py", S+"processed_stats.py", S+"game_data/game_consts.py", S+"game_data/job_class_fns.py"],
  [("per-kind damage formulas", S+"calcs/compute_damage_utils.py"), ("stat-to-bonus functions and level constants", S+"calcs/stat_fns.py, "+S+"game_data/game_consts.py")],
  ["expected pre-roll damage of an action for given stats, action and effects"])

p("C02", "Hit chances honour forced outcomes and add up active effects",
  "For every action, modifier, buff set and debuff set: if any of the four forces a critical (direct) hit its chance is 1, if any forbids it the chance is 0, if both happen the computation is refused with an error, and otherwise the chance is the character-sheet rate plus the buff and debuff rate bonuses, kept within 0 and 1. When a hit is forced, and only then, the rate bonuses turn into extra damage: the critical bonus (or 0.25 for direct hits) times the summed rate bonuses. Critical and direct-hit decisions never influence each other.",
  ["inputs", "configurations"], "all combinations of forced/forbidden/default over the four sources and all rates",
  "256 combinations of forcing sources per hit type times continuous rates; tests cover about a dozen.",
  [S+"calcs/compute_damage_utils.py"],
  [("forced status resolution and rate sums", S+"calcs/compute_damage_utils.py")],
  ["crit/direct-hit rates per damage instance", "extra damage of forced hits"])

p("C03", "Every sampled hit stays inside the range advertised for its outcome",
  "For every damage instance and every possible random draw, the sampled damage lies between the low and high value reported for the critical/direct-hit outcome that was rolled, and the four outcomes' reported probabilities are the products of the crit and direct-hit chances, each within 0 and 1 and summing to 1. An outcome with chance 0 is never rolled and one with chance 1 always is.",
  ["inputs", "schedules"], "all damage instances (any base damage, bonuses, rates, multipliers), all random draws in [0,1)",
  "Sampling tests see a few thousand draws and compare means with a tolerance; a boundary draw or a range mismatch of one truncation step never shows.",
  [S+"trackers/damage_tracker.py", S+"damage_simulator.py"],
  [("roll pipeline shared by sampling and range reporting", S+"trackers/damage_tracker.py")],
  ["damage matrix, crit and direct-hit status matrices", "reported damage ranges"])

p("C04", "Simulation totals and the per-hit report are consistent with the hits",
  "For every list of damage instances, the report lists them in time order with each row's time, name, potency, conditions, effects, event id, target and kind taken from one and the same instance, its outcome ranges coming from that instance's own pre-roll damage, chances, trait multiplier (the action's override if it has one) and product of buff and debuff multipliers, and the caller's list is left untouched. A row's expected damage is the probability-weighted mean of its four outcome ranges and its standard deviation is that mixture's; the total expectation and variance are the sums over rows, a sample's total is the sum over its hits, and its DPS is that total divided by the seconds between first and last hit (infinite when there is none).",
  ["inputs", "histories"], "all lists of damage instances in any order, any number of samples",
  "Tests use a handful of short, already sorted instance lists and mostly compare only means.",
  [S+"damage_simulator.py", S+"trackers/damage_tracker.py"],
  [("sorting, per-instance bookkeeping and aggregation", S+"damage_simulator.py")],
  ["per-skill damage report", "expected damage, variance, raw damage, DPS, event ids"])

p("C05", "Exactly the active, applicable effects shape an action",
  "At any time and for any action, the effects that count are exactly those applied at or before that time, not past their end time, with uses left, allowed for the action by allow and deny lists, and not outranked by a present higher-priority effect. Their combined influence is the sum of additive bonuses, the product of multipliers, the one forced hit status present (two are refused) and the names flagged as conditions; each effect that counted loses one use and nothing else changes. Debuffs count only for the target they were applied to.",
  ["inputs", "histories"], "all collections of effects with any windows, uses, lists and priorities, all times and actions",
  "The active set depends on the whole application history; tests sample few-effect histories at hand-picked times, rarely on the window boundaries.",
  [S+"trackers/status_effect_tracker.py", S+"trackers/status_effects.py"],
  [("expiry, filtering, priority and composition of effects", S+"trackers/status_effect_tracker.py")],
  ["compiled buffs and debuffs for an action at a time"],
  [dict(name="buffs/debuffs", meaning="active effects by name (per target)", where=S+"trackers/status_effect_tracker.py")])

p("C06", "Re-applying an effect extends, caps and replaces it correctly",
  "Applying an effect that is not running starts it now for its duration with its number of uses, unless it may only extend a running one, in which case nothing happens. Applying one that is running keeps its start, adds its duration to the time left (never below zero left, never above its maximum; time left unchanged if it does not extend), adds its uses up to their maximum and takes over the new definition. Effects it expires end at that moment, a clearing effect removes every buff before it is applied, and effects on other names and other targets are untouched.",
  ["inputs", "histories"], "all prior effect states, times, durations, caps and target lists",
  "Depends on the remaining time and uses at re-application, i.e. on histories; tests check two or three.",
  [S+"trackers/status_effect_tracker.py", S+"specs/status_effect_spec.py"],
  [("effect (re)application", S+"trackers/status_effect_tracker.py")],
  ["start, end, uses and definition of effects after application"])

p("C07", "Combo bonuses are granted exactly when the combo is intact",
  "An action with a combo requirement keeps its combo if it auto-succeeds, is forced, needs no predecessor, or the last combo action of its group was one of its predecessors at most 30 seconds earlier and succeeded itself; it loses the combo if any of its requirements fails. A success becomes the group's last combo action, a failure clears the group, groups it breaks are cleared too, a combo-breaking action clears everything, and all other groups keep their state.",
  ["histories", "inputs"], "all sequences of actions at any times with any combo requirements, groups and breakers",
  "Success depends on the whole action history and on a time limit; tests replay about ten sequences.",
  [S+"trackers/combo_tracker.py", S+"specs/combo_spec.py"],
  [("combo state machine per group", S+"trackers/combo_tracker.py")],
  ["the combo condition returned for each action"],
  [dict(name="last combo action per group", meaning="time and name of last successful combo action", where=S+"trackers/combo_tracker.py")])

p("C08", "Job gauge values follow the gauge rules at every moment",
  "At any time, a gauge's value is obtained by applying in time order (same-time changes in the order they were made) every gain or loss that has happened by then and has not run out, keeping the value between 0 and its maximum after each step, and resetting it to 0 whenever more than its expiry time passes since the first change or the last refreshing one (including up to now). Changes in the future have no influence. A positive value is reported, with the number unless the gauge hides it, only to actions on the gauge's allow list.",
  ["histories", "inputs"], "all sequences of gauge changes at any times, durations, caps and expiry times, queried at any time",
  "Value depends on the full change history, clamping order and expiry; tests check a few short histories, never expiry from time 0 or with changes still in the future.",
  [S+"trackers/job_resource_tracker.py", S+"specs/job_resource_spec.py", S+"specs/job_resource_settings.py"],
  [("gauge replay", S+"trackers/job_resource_tracker.py")],
  ["the gauge condition reported to an action"])

p("C09", "Channel windows are exactly the uninterrupted channelling periods",
  "For every time-ordered sequence of actions, a channel starts when a channelled action is used and ends at its full duration or at the next action that breaks it, whichever is first: another channelled action, an action not on its allow list, or the allowed use that exhausts its count; waiting never breaks it. The reported windows are in order, do not overlap, and contain one window per channelled action.",
  ["histories", "inputs"], "all time-ordered action sequences with any channel definitions",
  "Depends on interleavings of channels, allowed actions and counts; tests check about eight sequences.",
  [S+"trackers/channeling_tracker.py", S+"specs/channeling_spec.py"],
  [("channel state machine", S+"trackers/channeling_tracker.py")],
  ["channel windows after finalisation"])

p("C10", "The most specific matching variant of an action is used",
  "When an action's damage, timing, effect, combo, gauge, channel or follow-up definition has condition-dependent variants, the variant used is one whose conditions all hold and no other matching variant has more conditions (the later-declared one among equally specific ones), so the unconditional variant, having no conditions, is used only when no other matches. Conditions are compared as unordered sets, insensitive to surrounding spaces, and adding or removing conditions on a modifier changes only that modifier's set.",
  ["inputs", "configurations"], "all variant tables and all condition sets",
  "Exponentially many condition sets per action; tests touch a few per job.",
  [S+"utils.py", S+"skills/skill.py", S+"skills/skill_modifier.py"],
  [("best-matching key", S+"utils.py"), ("per-aspect variant lookup", S+"skills/skill.py")],
  ["variant returned by an action for a modifier"])

p("C11", "Version-dependent data resolves to the newest entry not after it",
  "For every table of values keyed by game version and every requested version, the value used is that of the greatest listed version not greater than the requested one, and lookups with no such entry report none (or an error where a potency is required). Trait multipliers, haste and auto-attack traits of a job are derived that way and are neutral for jobs or versions not listed.",
  ["inputs", "configurations"], "all version tables, versions, levels and jobs",
  "Tests look up only the released versions; between-version, older and future requests are not exercised.",
  [S+"utils.py", S+"game_data/specific_skills.py", S+"game_data/job_class_fns.py", S+"game_data/job_class_fns_data.py"],
  [("greatest-not-after lookup", S+"utils.py"), ("skill data access", S+"game_data/specific_skills.py")],
  ["skill parameters and traits for a version/level"])

p("C12", "The event timeline returns every event once, in priority order",
  "For every sequence of insertions and removals, each removal returns a remaining event with the smallest priority (name breaking ties), every inserted event comes out exactly once with the data it was inserted with, and events added without an id get consecutive ids from 0. An event whose snapshot and application coincide is kept as one immediate event that snapshots everything; inspecting, printing or asking for first-damage or last-event time (application times over damaging and over all events) changes nothing.",
  ["histories", "inputs"], "all interleavings of insertions, removals and inspections",
  "One unit test inserts two events; ordering and bookkeeping must hold for every interleaving.",
  [S+"timeline_builders/snapshot_and_application_events.py"],
  [("heap of events ordered by priority and name", S+"timeline_builders/snapshot_and_application_events.py")],
  ["order and content of returned events", "first damage time, last event time"])

p("C13", "No damage is dealt in downtime, and nothing else is dropped",
  "For every rotation and every set of downtime windows, the timeline contains no damaging event for a target whose snapshot or application time falls in one of that target's half-open windows for that damage kind (or for all kinds). Every other event keeps its times, action, modifier and remaining targets in order, non-damaging events are never removed, and the windows passed by the caller are not modified. Windows given without targets hold for every target, including ones added after an earlier timeline was built.",
  ["inputs", "histories", "configurations"], "all windows, times, targets and damage kinds",
  "Boundary times, partial target removal and kind-specific windows combine freely; tests check a few fixed layouts.",
  [S+"timeline_builders/rotation_builder.py"],
  [("downtime filter", S+"timeline_builders/rotation_builder.py")],
  ["timeline events per target"])

p("C14", "DoTs tick every three seconds, from application to expiry or renewal",
  "For every DoT and target, ticks occur every 3 s starting at the parent's application (or the first server tick not before it when server ticks are used), strictly before its duration ends and strictly before it is re-applied to the same target, so successive applications never overlap. Each tick is tied to the snapshot of the application it belongs to; other targets' DoTs are independent, and with trailing DoTs ignored exactly the ticks after the last other event are left out.",
  ["inputs", "histories"], "all application times, durations, server-tick offsets and targets",
  "Tick counts depend on residues modulo 3 s and renewal spacing; tests use a few round numbers.",
  [S+"timeline_builders/rotation_builder.py"],
  [("tick generation and renewal truncation", S+"timeline_builders/rotation_builder.py")],
  ["tick events in the timeline"])

p("C15", "Button, cast, snapshot and recast times obey the timing rules",
  "For every sequence of actions a press happens as soon as the previous press's animation lock and cast, and for GCD actions also the previous GCD's recast, are over; recast and cast are scaled by speed stat, effect haste and trait haste and truncated to 10 ms, reduced by flat reductions, and a standard 2.5 s recast never falls below 1.5 s nor a cast below 0. An action snapshots half a second before its cast ends (never before the press) and applies at the end of the cast plus its application delay (less that half second for cast actions, never negative), unless the modifier waives cast or delay. Follow-ups apply their delay after their parent.",
  ["inputs", "histories", "configurations"], "all action sequences, timing definitions, speed stats and haste effects",
  "Times depend on all previous actions and on rounding of every speed value; tests check fixed rotations at one speed per job.",
  [S+"timeline_builders/rotation_builder.py", S+"calcs/stat_fns.py", S+"utils.py"],
  [("sequence processing and cast/recast computation", S+"timeline_builders/rotation_builder.py"), ("speed formula", S+"calcs/stat_fns.py")],
  ["button press timing", "snapshot and application times of events"])

p("C16", "Each hit uses the effects of its own snapshot, once per target",
  "For every timeline, each damaging event yields exactly one damage instance per target, carrying the event's id, and landing at its application time plus 135 ms per preceding target when it has several. Its buffs and debuffs are those in force at its snapshot time when it snapshots them and at its application time otherwise, debuffs being those of the struck target; gauge and combo conditions are taken once, at the snapshot where they snapshot. Its own effects start only after it has been resolved, and the instances come out sorted by time.",
  ["inputs", "histories"], "all timelines of snapshot/application events, targets and snapshot flags",
  "The combination of flags, timing and multiple targets is unbounded; tests cover a few dozen timelines.",
  [S+"timeline_builders/damage_builder.py"],
  [("event loop of the damage builder", S+"timeline_builders/damage_builder.py")],
  ["damage instances produced from a timeline"])

p("C17", "Auto-attacks keep their cadence and respect casts and downtime",
  "With autos enabled, the first auto-attack starts at the first damage time and each next one follows after the weapon delay scaled by trait and active effect reductions (truncated to 10 ms), postponed to the end of any auto-blocking downtime of the target current when it is scheduled, and then of any cast or channel (of actions added at explicit times) it would fall into. Autos continue exactly while they would land before the last event, each aimed at the main target of the latest action at or before it.",
  ["inputs", "histories", "configurations"], "all weapon delays, effects, casts, channels, windows and target switches",
  "Cadence depends on the whole timeline; tests fix a few rotations and often disable autos.",
  [S+"timeline_builders/rotation_builder.py"],
  [("auto-attack scheduling", S+"timeline_builders/rotation_builder.py")],
  ["auto-attack events in the timeline"])

p("C18", "Building a timeline is repeatable and starts the fight at its first hit",
  "Unless a fight start time is given, the whole timeline and the button presses are shifted by one common amount so that the first damage lands at time 0, keeping order, spacing and data of all events; without any damage nothing is shifted. Building the timeline again gives the same events and presses, building it after adding actions gives what a fresh builder with all of them would give, and neither the caller's actions, modifiers nor settings are modified.",
  ["histories", "inputs"], "all rotations and all interleavings of adding actions and building",
  "Tests build every rotation once from a fresh builder.",
  [S+"timeline_builders/rotation_builder.py", S+"timeline_builders/snapshot_and_application_events.py"],
  [("timeline rebuild and shift", S+"timeline_builders/rotation_builder.py")],
  ["timeline and button press timing after one or several builds"])

p("C19", "Timed actions and CSV rows enter the rotation exactly as written",
  "An action added at a time given in seconds is pressed at that time to the nearest millisecond, whether typed in or read from a CSV file; press times exported in seconds and added again are the same to the millisecond. Every CSV row becomes exactly one timed action, in order, with its skill, its job (own job if blank), its conditions (defaults if blank) and its targets (default target if blank or absent), independent of column-name case; an action typed in, at a time or as the next ones in sequence, likewise has its skill, job, conditions and targets, the stated number of times.",
  ["inputs"], "all times representable to the millisecond, all rows and blank/non-blank combinations",
  "The CSV tests cannot even run here; times that binary floating point cannot represent (2.01 s) are never checked.",
  [S+"timeline_builders/rotation_builder.py", S+"rotation_import_utils/csv_utils.py"],
  [("timed insertion", S+"timeline_builders/rotation_builder.py"), ("row import", S+"rotation_import_utils/csv_utils.py")],
  ["button press timing", "queued actions"])

p("C20", "Kill times are the first moment cumulative damage reaches the HP",
  "For every set of rotations, samples and boss HP, each sample's kill time is the time of the earliest hit (over all rotations merged in time order) at which its cumulative damage is at least the boss HP, in seconds; samples that never reach it are reported as missing, at the end, so one entry per sample remains. Limit-break hits deal exactly the stated damage, or the stated mean within 5%, in place of the rolled value, and a limit break without a stated damage is refused.",
  ["inputs", "schedules"], "all rotations, boss HP values and random draws",
  "Two statistical tests at one HP each; the order of merged hits, boundary equality and failures are not exercised.",
  ["ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"],
  [("merge, cumulative sum and first crossing", "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py")],
  ["kill time list, cumulative damage, merged times"])

p("C21", "Damage-over-time analysis accounts for every snapshotted hit once",
  "For every per-hit report and timestamp, the reported total is the sum of expected damage of exactly the hits snapshotted at or before it; totals at increasing timestamps never decrease for non-negative damage, the listed timestamps are the interval's multiples before the last snapshot followed by the last snapshot, and the last total is the sum over all hits.",
  ["inputs"], "all reports, timestamps and intervals",
  "There are no tests for the analysis utilities at all.",
  ["ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"],
  [("threshold sum", "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py")],
  ["analysis results"])

p("C22", "The skill library returns exactly what was registered for a job",
  "For every sequence of registrations, looking up an action, gauge, combo breaker or effect priority for a job returns what was last registered for that job and name, and nothing registered for other jobs; a second action with the same name in a job and unknown actions are refused. Gauge and breaker tables handed out are copies, so changing them does not change the library.",
  ["histories", "inputs"], "all sequences of registrations and lookups",
  "Cross-job isolation and aliasing show only in particular registration orders; tests only look up actions.",
  [S+"skills/skill_library.py"],
  [("per-job registries", S+"skills/skill_library.py")],
  ["library lookups"])

p("C23", "A logged bonus percentage identifies the combo/positional variant",
  "For every action with positional variants and every logged bonus percentage, the conditions derived are the given ones plus the first of (as given, missed positional, missed combo, both missed) whose potency exceeds the lowest potency by exactly that truncated percentage of itself; a zero percentage always means a missed positional, a percentage no variant explains is reported as an error, and for actions without positional variants or a logged percentage nothing is added to the conditions. The caller's modifier is not modified.",
  ["inputs"], "all potency tables, condition sets and percentages",
  "Tests check a few potencies; ties and unmatched percentages combine freely.",
  [S+"utils.py"],
  [("positional inference", S+"utils.py")],
  ["derived condition"])

p("C24", "Area falloff and effect flags of an action cover all its parts",
  "For every action with area falloff and condition-dependent damage, each variant gets for every secondary target (2nd to 10th) a variant with potency reduced by exactly the falloff and everything else equal, and the primary variants stay unchanged. An action is flagged as giving a buff, debuff, party buff or party debuff exactly when it or any of its follow-ups, in any variant, has one.",
  ["inputs", "configurations"], "all variant tables, falloffs and follow-up lists",
  "Tests check a fixed list of test actions with at most one follow-up.",
  [S+"skills/skill.py"],
  [("action construction", S+"skills/skill.py")],
  ["damage variants per target number", "effect flags"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
