#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list below."""
import json, os
T = "static analysis: path-sensitive interprocedural abstract interpretation of the bytecode (effect and heap summaries, loops widened, no solver, nothing executed)"
COMMON = " Sound for the rules stated in DESIGN.md up to the modelled JDK/log4j transfer functions; where the analysis loses precision it prints UNDECIDED for that obligation instead of guessing, and never reports a violation from it."
N = {
 "C01": "Every path of event processing, for a symbolic table, state and event, over all cases mapped / unmapped / no transition / ending.",
 "C02": "Every path of a transition, with and without listener; order, arguments and count of notifications and actions.",
 "C03": "Every path of a transition and of start(), over ordinary, immediately ending, unconfigured and end targets.",
 "C04": "Every write of the flags and the current state in the program with the guard that dominates it, plus processing of queued events after the end.",
 "C05": "Every path of start()/startInState(), symbolic configuration; compare-and-set ownership for racing callers.",
 "C06": "Every path of start()/startInState(). One known finding: start publishes 'started' before the entry actions have run.",
 "C07": "Every path of firing and draining for both strategies, arbitrary queue contents (loop invariant), including a task racing with others.",
 "C08": "Everything reachable from fire is checked not to act in the caller; the executor handed work is the single-thread default.",
 "C09": "Every exception edge of processing one event and of the drain loop.",
 "C10": "Every path of firing with symbolic maximum and size. One known finding: check and insert are two steps.",
 "C11": "Every path of firing with the drop-duplicate strategy, arbitrary queue contents. One known finding: check and insert are two steps.",
 "C12": "Provenance and copy depth of the event object delivered, for symbolic event types and payloads.",
 "C13": "Ownership (typestate) of event carriers along every path, including exception paths.",
 "C14": "Heap reachability between any two separately built machines and strategies, over all ways of configuring them.",
 "C15": "Every path of each configuration call, from every kind of prior configuration state.",
 "C16": "Every path of entry/exit with an arbitrary list of actions (loop summary).",
 "C17": "Dependence of equals/hashCode on fields, mutability of those fields.",
 "C18": "Every exception edge of the wrapper.",
 "C19": "Every path of the callbacks with an arbitrary set of listeners, any of them throwing.",
 "C20": "Field access roles of all fields shared between threads: final, volatile, atomic, locked or handed over.",
 "C21": "The lifecycle table obtained by abstract evaluation of the configuration code, compared entry by entry with the documented one.",
 "C22": "Abstract evaluation of the lifecycle's entry actions with 0-3 (thorough: 0-6) subsystems, each possibly failing, and with an unknown list.",
 "C23": "Every path of start/stop/error in each lifecycle state and mode; count-downs of what start() waits for on every way to the end.",
 "C24": "Every path of the thread factory; provenance of the default executor.",
 "C25": "Provenance of each configured collaborator up to its use, over the combinations of configured and defaulted ones.",
 "C26": "Every path of fire in each phase of the machine's life.",
 "C27": "What the reported size is read from compared with when entries leave it. One known finding: an event being processed is not counted.",
 "C28": "Effect analysis of everything reachable from fire for blocking operations, locks shared with processing and waiting loops.",
 "C29": "Every path of the built-in observers: number and content of log records, absence of other effects.",
}
NA = {
 "C30": "liveness: quantifies over unbounded fair schedules and over termination of user actions and of the executor, which no static argument over this source can bound; its safety core (each accepted event is followed by a drain that empties the queue) is claimed as C07",
 "C31": "linearizability of concurrent histories: whether an announcement that overlaps an add or remove sees it is a matter of runtime interleavings inside ConcurrentHashMap's weakly consistent iteration, not of this source; the parts visible in the source are claimed as C19 and C20",
 "C32": "a quantitative memory bound over runtime load: the number of live carriers depends on how many firing threads overlap and on user queue and executor, which no sound static argument in reach bounds; carrier ownership is claimed as C13",
}
here = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": T, "level": "other", "level_note": n + COMMON} for i, n in N.items()],
     "not_applicable": [{"property": i, "reason": n} for i, n in NA.items()]}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
