#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
SM = "src/main/java/com/webotech/statemachine/"
G = SM + "GenericStateMachine.java"
TT = SM + "strategy/TransitionTask.java"
DS = SM + "strategy/DefaultEventStrategy.java"
DD = SM + "strategy/DropDuplicateEventStrategy.java"
F = SM + "strategy/EventProcessingStrategyFactory.java"
POOL = SM + "strategy/EventMachinePairPool.java"
PAIR = SM + "strategy/EventMachinePair.java"
NS = SM + "NamedState.java"
NE = SM + "NamedStateEvent.java"
HE = SM + "HandleExceptionAction.java"
MC = SM + "MultiConsumerStateMachineListener.java"
LL = SM + "LoggingStateMachineListener.java"
DU = SM + "strategy/DefaultUnexpectedFlowListener.java"
AS = SM + "service/AbstractAppService.java"
AC = SM + "service/AbstractAppContext.java"
LU = SM + "service/LifecycleStateMachineUtil.java"
TH = SM + "util/Threads.java"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Events move the machine exactly as configured",
  "When a running machine processes an event, it moves to exactly the state configured for its current state and that event, and if the machine was told not to transition on it, it stays where it is and runs no action. An event with no mapping in the current state is handed, with the machine, to the unmapped-event handler exactly once and causes no action, no listener call and no state change.",
  ["programs", "inputs", "histories"],
  "every machine configuration, every current state and every event (mapped, not mapped, non-transitioning, ending)",
  "Tests walk a handful of two-state machines; the guarantee is over every transition table, event and prior history.",
  [TT, G], [("table lookup, unmapped and no-op branches", TT + " execute"), ("guarded state update", G + " updateCurrentState")],
  state=[("states", "state -> event -> target table", G), ("currentState", "state the machine is in", G)],
  observe=["StateMachine.getCurrentState", "StateMachineListener", "unmapped event handler"])
p("C02", "Transitions notify and act in the documented order, once each",
  "Each transition announces its beginning to the listener, then runs the exit actions of the state being left, then makes the target the current state, then runs the entry actions of the target, then announces its end; each of these happens exactly once and sees the same event, machine, source and target. An event configured not to transition yields exactly one begin and one end announcement naming the no-op target. A machine with no listener behaves the same without the announcements.",
  ["programs", "inputs", "histories"],
  "every transition of every configured machine, with or without a listener, whichever source, target and event",
  "Tests observe the order for a few transitions and with mocks; nothing exercises every combination of source, target, listener and event.",
  [TT, G], [("order of notify, onExit, update, onEntry, notify", TT + " execute"), ("listener dispatch", G + " notifyStateMachineListener")],
  observe=["StateMachineListener.onStateChangeBegin/onStateChangeEnd", "State.onEntry/onExit"])
p("C03", "A machine ends exactly when it is configured to",
  "A machine ends when an event mapped to end is processed, when it has entered a state configured to end immediately (including the initial state that start() enters), or when an event has taken it into a state for which nothing was configured, and at no other time except an explicit stop. Entry actions and both announcements for such an immediately ending or unconfigured state happen before the machine ends.",
  ["programs", "histories"],
  "every configuration (states that end on an event, end immediately, are never configured, or are ordinary) and every history reaching them",
  "Tests end machines through two or three configurations only.",
  [TT, G], [("end-of-transition check", TT + " execute"), ("itEnds", G), ("stop", G)],
  state=[("isEnded", "machine has ended", G)], observe=["StateMachine.isEnded", "StateMachine.getCurrentState"])
p("C04", "Ended is final",
  "Once a started machine has ended, by an event, by its configuration or by stop(), it stays ended: isEnded() never goes back to false and the current state never changes again, whatever events are queued, in progress on another thread, or fired later. Events still queued when the machine ends cause no transition.",
  ["schedules", "histories"],
  "every interleaving of start, stop, fire and event processing on any threads",
  "The window between starting or updating and ending is a few instructions wide; the tests that hit it are excluded as flaky.",
  [G, DS], [("compare-and-set on isEnded before the state is written", G + " updateCurrentState"), ("isEnded check before processing", DS + " processEvent"), ("reset of isEnded only while starting", G + " start, startInState")],
  state=[("isEnded", "machine has ended", G), ("currentState", "current state", G)], observe=["StateMachine.isEnded", "StateMachine.getCurrentState"])
p("C05", "A machine starts at most once and only when fully configured",
  "Of all calls to start() and startInState() on a machine, on any threads, exactly one can succeed; every other call throws IllegalStateException and changes nothing. A call also throws IllegalStateException, before running any action or marking the machine started, if no initial state is defined or some configured event has no outcome (start), or if the requested state is not configured (startInState).",
  ["schedules", "programs"],
  "every configuration, every order and interleaving of start calls",
  "Tests call start twice on one thread with one configuration; they cannot cover racing starts or all incomplete configurations.",
  [G], [("compare-and-set of isStarted", G + " start, startInState"), ("scan of all mappings", G + " start")],
  state=[("isStarted", "machine was started", G)], observe=["StateMachine.start", "StateMachine.startInState", "StateMachine.isStarted"])
p("C06", "Starting enters the initial state; resuming does so silently",
  "start() makes the initial state current, announces the begin, runs the initial state's entry actions exactly once with the machine's immediate event, and announces the end, in that order, from the uninitialised state. startInState(s) makes s current and runs no action and no announcement. No event is processed before the initial state is current and its entry has completed.",
  ["programs", "schedules", "histories"],
  "every configuration and every interleaving of start with events fired from other threads or from the initial entry actions",
  "Tests start single-threaded; the interleaving of the initial entry with early events is not driven by any test.",
  [G], [("start", G), ("startInState", G)], observe=["StateMachineListener", "State.onEntry"])
p("C07", "Every accepted event is queued once and drained in arrival order",
  "An event accepted for processing is placed exactly once at the tail of the event queue, and only after that is a drain of the queue handed to the executor, for every accepted event; a drain keeps taking events from the head, and processes each taken event exactly once unless the machine has ended, until the queue is empty. An event that the queue refuses is reported through the unexpected-flow listener instead of vanishing.",
  ["schedules", "histories", "inputs", "configurations"],
  "every sequence of fired events from any threads, every queue and executor configuration",
  "A lost wake-up or a skipped event needs a precise interleaving of firing and draining that sampled tests do not control.",
  [DS], [("offer then execute", DS + " processEvent"), ("drain loop", DS + " processEvent")],
  state=[("eventQueue", "events waiting to be processed", DS)], observe=["StateMachineListener", "UnexpectedFlowListener"])
p("C08", "Transitions run one at a time, away from the firing thread",
  "Firing an event never runs actions, announcements or transitions in the caller: it only hands work to the machine's executor, which by default processes on one single thread, so a transition runs to completion before the next event is looked at, even when actions fire further events.",
  ["schedules", "histories"],
  "every machine using a built-in strategy with its default executor, every thread and every nesting of fire inside actions",
  "Absence of overlap is a statement over all schedules; tests see one.",
  [G, DS, DD, F, TT], [("hand-off to executor", DS + " processEvent"), ("single-thread executor default", F + " Config.getExecutor")],
  observe=["State.onEntry/onExit", "StateMachineListener"])
p("C09", "A failing event is reported once and takes no other event down",
  "If processing an event throws any Exception (from an action, a listener, the unmapped handler or the lookup), the exception is reported exactly once to the unexpected-flow listener together with that event, its machine and the processing thread, does not escape into the executor, and the following events are still processed. Events that complete normally are never reported as failures.",
  ["fault_sequences", "histories"],
  "every point of event processing that can throw, in every sequence of events",
  "Tests inject one exception at one point.",
  [DS, TT], [("try/catch/finally around execution", DS + " processEvent")], observe=["UnexpectedFlowListener.onExceptionDuringEventProcessing"])
p("C10", "A bounded queue rejects loudly, and only when full",
  "With a positive maximum queue size, an event arriving while that many events are queued is not queued and is reported once to the unexpected-flow listener as an IllegalStateException on the firing thread; an event arriving below the limit is queued. Without a positive maximum no event is rejected for its size. The queue never holds more than the maximum, however many threads fire.",
  ["inputs", "schedules", "configurations"],
  "every maximum, every queue fill level, any number of firing threads",
  "Tests use a maximum of one and two events from one thread.",
  [DS, F], [("size check before offer", DS + " processEvent")], observe=["UnexpectedFlowListener.onExceptionDuringEventProcessing", "StateMachine.getEventQueueSize"])
p("C11", "Duplicate dropping drops duplicates of queued events and nothing else",
  "The drop-duplicate strategy ignores a fired event exactly when an equal event is waiting in the queue at that moment, and otherwise treats it as the default strategy would, so that no two equal events ever wait in the queue. An event being processed, or one already processed, never causes a drop.",
  ["histories", "schedules", "inputs"],
  "every queue content and every fired event, from any threads",
  "The only test covers one hand-made queue with one event, and only the drop side.",
  [DD, DS], [("equality scan of the queue before delegating", DD + " processEvent")], observe=["DropDuplicateEventStrategy.processEvent"])
p("C12", "An event is delivered with the payload it had when fired",
  "Actions triggered by a fired named event see the payload the event carried when it was fired, even if the caller sets another payload on the same event object before it is processed. Events keep their name, and events of any type still select the transition mapped for them.",
  ["histories", "schedules", "inputs"],
  "every event, payload, and every interleaving of setPayload with processing",
  "Needs the caller to mutate the event between fire and processing; the tests that do so only use non-null payloads from one thread.",
  [DS, NE], [("defensive copy", DS + " processEvent"), ("copy constructor", NE)], observe=["StateEvent.getPayload inside actions"])
p("C13", "Recycled event carriers are exclusive, and cleared",
  "A pooled carrier of an event belongs to at most one queued or in-process event at a time: it is taken from the pool or newly made for each accepted event, filled before it is queued, and given back exactly once, after its event has been processed or failed, on every path. A returned carrier keeps no reference to the event or machine it carried.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of fires, completions and failures",
  "Aliasing appears only when a carrier is reused at the wrong moment, which depends on the schedule.",
  [DS, POOL, PAIR], [("take/give", POOL), ("finally give", DS + " processEvent")], observe=["EventMachinePairPool", "events seen by actions"])
p("C14", "Independently built machines never interfere",
  "Machines built separately, including from the same builder, the default strategy or the same strategy configuration, share no event queue, processing thread, transition table or other mutable state unless the caller supplied that very object: what one machine does never changes the events, transitions or reported queue size of another.",
  ["histories", "programs", "configurations"],
  "every set of machines created in one process and every interleaving of their use",
  "Each test uses one machine at a time, in its own JVM per class.",
  [F, G, DS, DD], [("fresh default collaborators", F + " Config getters"), ("build", G + " Builder.build")], observe=["StateMachine.getEventQueueSize", "transitions of each machine"])
p("C15", "Invalid configuration steps are rejected and change nothing",
  "Reserved state and event names, a second initial state, steps before the initial state, marking a state while one is still being configured, outcomes without a marked state or event, mapping an event that already has an outcome, and immediate end of a state that has mappings are each rejected with IllegalStateException, and a rejected step leaves all outcomes configured so far as they were. A valid step records exactly that state, event and outcome.",
  ["programs", "inputs"],
  "every sequence of configuration calls with any states and events",
  "Tests try about a dozen sequences out of an unbounded set.",
  [G], [("assert* guards before mutation", G + " initialSate, when, receives, itEnds, itTransitionsTo, itDoesNotTransition")],
  state=[("markedState/markedEvent", "configuration in progress", G)], observe=["StateMachine configuration methods"])
p("C16", "State actions run once each, in the order they were appended",
  "Entering (leaving) a named state runs every appended non-null entry (exit) action exactly once, in append order, with the same event and machine, on the calling thread; entry actions never run on exit or the reverse. Appending keeps all earlier actions and skips nulls.",
  ["inputs", "histories"],
  "every list of actions, appended in any number of calls",
  "Tests append two actions per state.",
  [NS], [("action lists", NS + " onEntry, onExit, append*Actions")], observe=["StateAction.execute"])
p("C17", "A name identifies a state or event; nothing else does",
  "Two named states are equal exactly when their names are equal, likewise two named events whatever their payloads; equal ones have equal hash codes, a state never equals an event, and neither equality nor hash code changes over an object's life. The name reported is the one given at construction.",
  ["inputs", "histories"],
  "all pairs of names, payloads and histories of mutation",
  "Tests compare a few pairs.",
  [NS, NE], [("equals/hashCode", NS), ("equals/hashCode", NE)], observe=["equals", "hashCode", "getName"])
p("C18", "A wrapped action's exceptions all reach the handler, once",
  "The exception-handling action runs the wrapped action exactly once with the event and machine it was given; if that throws any Exception, the handler is called exactly once with that same event, machine and exception and nothing else is thrown by the wrapper, and if it does not, the handler is not called.",
  ["fault_sequences", "inputs"],
  "every wrapped action and every exception type, checked or unchecked",
  "Tests throw one exception type.",
  [HE], [("try/catch", HE + " execute")], observe=["HandleExceptionAction.execute"])
p("C19", "The fan-out listener notifies every registered listener once",
  "Every listener registered with the fan-out listener and not removed receives each begin and each end announcement exactly once with the same arguments, begin as begin and end as end, even when another listener throws. Adding reports whether the listener was new, removing whether it was present, both take effect for the following announcements, and both are safe while announcements are in progress on other threads.",
  ["histories", "schedules", "fault_sequences"],
  "any number of listeners, any order of add, remove and announcements, any listener failing",
  "Tests use one or two well-behaved listeners on one thread.",
  [MC], [("concurrent map of consumers", MC)], observe=["StateMachineListener callbacks", "add/remove results"])
p("C20", "State shared between threads is safely published",
  "Whatever one thread does to a running machine is visible to the others: the current state, the started and ended flags and a newly set or cleared listener are observed by the processing thread and by callers without further synchronisation, and replacing or clearing the listener while a transition is announced never fails the transition.",
  ["schedules"],
  "every schedule and every behaviour the Java memory model allows",
  "Visibility failures depend on the hardware and JIT; tests cannot force them.",
  [G, DS, TT, POOL, MC], [("atomics, volatile, concurrent collections, hand-over through the queue", G)],
  state=[("currentState, stateMachineListener", "read by the processing thread and callers", G)], observe=["StateMachine.getCurrentState", "StateMachine.setStateMachineListener"])
p("C21", "App lifecycle follows the documented state table",
  "An app's lifecycle has exactly the transitions UNINITIALISED-start-STARTING, STARTING-complete-STARTED, STARTING-error-STOPPED, STARTED-stop-STOPPING, STARTED-error-STOPPED, STOPPING-complete-STOPPED, STOPPING-error-STOPPED, STOPPED-start-STARTING and STOPPED-stop-end, and each state runs the entry actions meant for it.",
  ["programs", "histories"],
  "every lifecycle state and lifecycle event",
  "The tests walk the happy path and one error; STARTING/STOPPING errors and several pairs are never fired.",
  [LU, AS], [("configureAppStateMachine", LU), ("state factories", LU)], observe=["AbstractAppService.getLifecycleState", "StateMachineListener"])
p("C22", "Subsystems start in order, stop in reverse, and failures end in error",
  "Starting an app starts each of its subsystems exactly once in list order with the app context, and signals completion only after all have started; stopping stops each exactly once in reverse order and signals completion only after all have stopped. If any subsystem throws an Exception, no further subsystem is touched, completion is not signalled, and exactly one error is signalled instead.",
  ["inputs", "fault_sequences"],
  "any number of subsystems, any of them failing at start or stop",
  "Tests use two mocked subsystems that never fail.",
  [AS], [("starting/stopping entry actions wrapped in HandleExceptionAction", AS + " configureAppStateMachine")], observe=["Subsystem.start/stop", "lifecycle state"])
p("C23", "An app accepts start and stop only when valid, and start returns at the end",
  "start() runs the app and blocks until it has been stopped for good; a later start() is accepted only in restartable mode while STOPPED, and stop() only while STARTED, or in restartable mode while STOPPED, or as a no-op while STOPPED in exit mode: any other call throws IllegalStateException and signals nothing. The thread blocked in start() is released without an exception on reaching STOPPED in exit mode and on a further stop in restartable mode; an interruption makes it ask a started app to stop, and return. error() signals exactly one error and throws nothing.",
  ["histories", "schedules", "configurations"],
  "both modes, every lifecycle state, every interleaving of start, stop and error",
  "Tests never check that the thread in start() returns, and try one invalid call per method.",
  [AS], [("state checks", AS + " start, stop"), ("latch", AS)], state=[("appLatch", "blocks the starting thread until the app is done", AS)], observe=["AppService.start", "AppService.stop"])
p("C24", "Default threads are daemon, named, unique and supervised",
  "Every thread made by the library's thread factory is a daemon running exactly the given work, is named with the given name plus a number no other such thread gets, and has the given uncaught-exception handler; the default executor of a strategy uses such threads with the configured thread name and logs uncaught exceptions, so it never keeps the process alive.",
  ["configurations", "schedules"],
  "every thread name, handler and number of threads, created from any threads",
  "Tests create one or two threads and cannot see naming races or a process kept alive.",
  [TH, F], [("NamedDaemonThreadFactory.newThread", TH), ("Config.getExecutor", F)], observe=["Thread attributes"])
p("C25", "The collaborators the user configures are the ones used",
  "The context, listener and strategy given to the builder, and the executor, queue, maximum size, thread name, unmapped-event handler and unexpected-flow listener given to a strategy configuration, are exactly the ones the machine then uses, for the default and the drop-duplicate strategy alike; a default takes the place only of what was not given. The context is handed out unchanged for the machine's whole life, and app context values are returned as given.",
  ["configurations"],
  "every combination of configured and defaulted collaborators",
  "Tests check setters against getters of the configuration object, not that the running machine uses the values.",
  [G, F, DS, DD, AC, AS], [("Builder", G), ("Config and create*Strategy", F), ("constructors", DS)], observe=["effects on the supplied collaborators", "StateMachine.getContext"])
p("C26", "Events fired outside the running phase are reported, never processed",
  "An event fired before the machine has started is reported exactly once to the unexpected-flow listener as before-start, one fired after the machine has ended exactly once as after-end, each with that event and machine, and neither is queued. An event fired while the machine runs is handed to the strategy exactly once and is reported as neither.",
  ["histories", "schedules"],
  "every event and every moment of the life of a machine",
  "Tests check the default listener's log text only; the routing itself is checked for few histories.",
  [G], [("fire", G)], observe=["UnexpectedFlowListener.onEventBeforeMachineStart/onEventAfterMachineEnd"])
p("C27", "The reported queue size covers all unfinished events",
  "A machine reports as its event queue size the number of its accepted events that have not completed processing, whichever built-in strategy it uses, so that zero means that no event is waiting or being processed.",
  ["schedules", "histories"],
  "every moment, including while an event is being processed",
  "Tests poll for zero and then sleep to hide the event still in progress.",
  [G, DS, DD], [("getEventQueueSize", DS)], observe=["StateMachine.getEventQueueSize"])
p("C28", "Firing an event never blocks the caller",
  "Firing an event returns without waiting for event processing: the firing path takes no lock that is held during processing, performs no blocking wait, sleep, join or blocking queue operation, and does not loop until a condition changes.",
  ["schedules", "inputs"],
  "every state of the machine and its queue, every built-in strategy",
  "Tests fire into idle machines; blocking shows only under particular load.",
  [G, DS, DD, POOL], [("non-blocking queue, executor hand-off", DS + " processEvent")], observe=["StateMachine.fire"])
p("C29", "Built-in observers only observe",
  "The logging listener and the default unexpected-flow listener write one log record per callback: the begin of a change names both states and the event, its end names the state reached, and the two differ; an unexpected flow is logged with the event and exception given. They never throw on valid input, and neither they nor the default unmapped-event handler fire events, stop or otherwise change the machine.",
  ["inputs"],
  "every callback with any states, event, listener name and exception",
  "Tests compare a few log lines.",
  [LL, DU], [("logChange", LL), ("callbacks", DU)], observe=["log output"])
p("C30", "Every accepted event is eventually processed",
  "Provided the executor keeps running tasks and actions terminate, every accepted event of a running machine is eventually processed.",
  ["schedules"],
  "every fair schedule, for unbounded time",
  "Liveness over unbounded executions.",
  [DS], [("drain per accepted event", DS + " processEvent")], observe=["StateMachineListener"])
p("C31", "Concurrent add, remove and announce on the fan-out listener linearise",
  "Each add, remove and announcement of the fan-out listener appears to take effect at one instant between its call and return, so a listener is never called by an announcement that starts after its removal returned, nor missed by one that starts after its addition returned.",
  ["schedules"],
  "every concurrent history of add, remove and announcements",
  "A property of concurrent histories.",
  [MC], [("ConcurrentHashMap with weakly consistent iteration", MC)], observe=["listener callbacks"])
p("C32", "Memory held for events is bounded under sustained overload",
  "With a bounded queue and no more than a fixed number of firing threads, the memory the library holds for events, including recycled carriers, stays below a fixed bound however long the machine runs.",
  ["histories", "schedules"],
  "every load pattern, unbounded time",
  "A quantitative bound over unbounded runs.",
  [POOL, DS], [("pool of carriers", POOL)], observe=["heap size"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
