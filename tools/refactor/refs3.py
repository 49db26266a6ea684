"""A third set of edits that keep the behaviour: larger restructurings, new files, several places at once."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
R = []
def ref(name, *edits): R.append((name, edits))

# --- a table class of its own, in a new file
ref("g3-table-class",
  (M + "TransitionTable.java", None, '''package com.webotech.statemachine;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import java.util.HashMap;
import java.util.Map;

final class TransitionTable<T, S> {

  private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> rows;

  TransitionTable(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> rows) {
    this.rows = rows;
  }

  Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> rows() {
    return rows;
  }

  void addState(State<T, S> state) {
    rows.putIfAbsent(state, new HashMap<>());
  }

  void addEvent(State<T, S> state, StateEvent<S> event) {
    rows.get(state).putIfAbsent(event, null);
  }

  void map(State<T, S> state, StateEvent<S> event, State<T, S> target) {
    rows.get(state).put(event, target);
  }

  State<T, S> target(State<T, S> state, StateEvent<S> event) {
    return rows.get(state).get(event);
  }

  boolean hasMappings(State<T, S> state) {
    return !rows.get(state).isEmpty();
  }
}
'''),
  (G, "  private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n", "  private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n  private final TransitionTable<T, S> table;\n"),
  (G, "    this.states = states;\n", "    this.states = states;\n    this.table = new TransitionTable<>(states);\n"),
  (G, "    this.states.putIfAbsent(state, new HashMap<>());\n", "    table.addState(state);\n"),
  (G, "    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);\n", "    table.addEvent(markedState, stateEvent);\n"),
  (G, "      this.states.get(this.markedState).put(immediateEvent, this.endState);\n", "      table.map(markedState, immediateEvent, endState);\n"),
  (G, "      this.states.get(this.markedState).put(this.markedEvent, this.endState);\n", "      table.map(markedState, markedEvent, endState);\n"),
  (G, "    this.states.get(this.markedState).put(this.markedEvent, state);\n", "    table.map(markedState, markedEvent, state);\n"),
  (G, "    this.states.get(this.markedState).put(this.markedEvent, this.noopState);\n", "    table.map(markedState, markedEvent, noopState);\n"),
  (G, "    State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);\n", "    State<T, S> toState = table.target(markedState, markedEvent);\n"),
  (G, "    if (!this.states.get(this.markedState).isEmpty()) {\n", "    if (table.hasMappings(markedState)) {\n"),
  (G, "      if (endState.equals(states.get(initState).get(immediateEvent))) {\n", "      if (endState.equals(table.target(initState, immediateEvent))) {\n"))
ref("g3-guard-class",
  (M + "Guard.java", None, '''package com.webotech.statemachine;

final class Guard {

  private Guard() {
  }

  static void check(boolean ok, String message) {
    if (!ok) {
      throw new IllegalStateException(message);
    }
  }

  static boolean reserved(String name, Iterable<String> reserved) {
    for (String r : reserved) {
      if (r.equals(name)) {
        return true;
      }
    }
    return false;
  }
}
'''),
  (G, '''    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {
      throw new IllegalStateException(
          "Invalid state [" + state.getName() + "] is using a reserved name.");
    }
''', '''    Guard.check(!Guard.reserved(state.getName(), reservedStateNames),
        "Invalid state [" + state.getName() + "] is using a reserved name.");
'''),
  (G, '''    if (immediateEvent.getName().equals(stateEvent.getName())) {
      throw new IllegalStateException(
          "Invalid StateEvent [" + stateEvent.getName() + "] is using a reserved name.");
    }
''', '''    Guard.check(!immediateEvent.getName().equals(stateEvent.getName()),
        "Invalid StateEvent [" + stateEvent.getName() + "] is using a reserved name.");
'''),
  (G, '''    if (this.markedEvent == null) {
      throw new IllegalStateException("A StateEvent has to be defined first using receives().");
    }
''', '''    Guard.check(this.markedEvent != null, "A StateEvent has to be defined first using receives().");
'''))
ref("g3-outcome-enum",
  (G, '''  @Override
  public StateMachine<T, S> itTransitionsTo(State<T, S> state) {
    assertNotReservedState(state);
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, state);
    this.markedState = null;
    this.markedEvent = null;
    return this;
  }

  @Override
  public StateMachine<T, S> itDoesNotTransition() {
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, this.noopState);
    this.markedState = null;
    this.markedEvent = null;
    return this;
  }
''', '''  @Override
  public StateMachine<T, S> itTransitionsTo(State<T, S> state) {
    assertNotReservedState(state);
    return mapMarkedEvent(state);
  }

  @Override
  public StateMachine<T, S> itDoesNotTransition() {
    return mapMarkedEvent(this.noopState);
  }

  private StateMachine<T, S> mapMarkedEvent(State<T, S> outcome) {
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    final Map<StateEvent<S>, State<T, S>> row = this.states.get(this.markedState);
    row.replace(this.markedEvent, outcome);
    clearMarks();
    return this;
  }

  private void clearMarks() {
    this.markedEvent = null;
    this.markedState = null;
  }
'''))
ref("g3-itends-split",
  (G, '''    if (this.markedEvent == null) {
      assertNoMappingsExistAtEnd();
      this.states.get(this.markedState).put(immediateEvent, this.endState);
    } else {
      assertEventNotMapped();
      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
''', '''    final boolean immediately = this.markedEvent == null;
    if (immediately) {
      assertNoMappingsExistAtEnd();
    } else {
      assertEventNotMapped();
    }
    final StateEvent<S> trigger = immediately ? this.immediateEvent : this.markedEvent;
    this.states.get(this.markedState).put(trigger, this.endState);
'''))
ref("g3-lifecycle-enum",
  (G, "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n", "  private volatile Phase phase = Phase.NEW;\n"),
  (G, "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", ""),
  (G, "    if (isStarted.get()) {\n      return false;\n    }\n    isEnded.set(false);\n    currentState = state;\n    isStarted.set(true);\n    return true;\n", "    if (isStarted()) {\n      return false;\n    }\n    currentState = state;\n    phase = Phase.RUNNING;\n    return true;\n"),
  (G, "    return isStarted.get();\n", "    return phase == Phase.RUNNING || phase == Phase.ENDED;\n"),
  (G, "    return isEnded.get();\n", "    return phase == Phase.ENDED || phase == Phase.CANCELLED;\n"),
  (G, "    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }\n", '''    if (isEnded()) {
      return;
    }
    if (state.equals(endState)) {
      phase = isStarted() ? Phase.ENDED : Phase.CANCELLED;
    }
    currentState = state;
'''),
  (G, "  public static class Builder<T, S> {\n", '''  private enum Phase {
    NEW, CANCELLED, RUNNING, ENDED
  }

  public static class Builder<T, S> {
'''))
def lifecycle(name, field, init, begin, started, ended, update, extra):
    ref(name,
      (G, "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n", field),
      (G, "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", init),
      (G, "    if (isStarted.get()) {\n      return false;\n    }\n    isEnded.set(false);\n    currentState = state;\n    isStarted.set(true);\n    return true;\n", begin),
      (G, "    return isStarted.get();\n", started),
      (G, "    return isEnded.get();\n", ended),
      (G, "    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }\n", update),
      (G, "  public static class Builder<T, S> {\n", extra + "  public static class Builder<T, S> {\n"))
lifecycle("g3-lifecycle-int", "  private static final int NEW = 0;\n  private static final int CANCELLED = 1;\n  private static final int RUNNING = 2;\n  private static final int ENDED = 3;\n  private volatile int phase = NEW;\n", "",
  "    if (phase >= RUNNING) {\n      return false;\n    }\n    currentState = state;\n    phase = RUNNING;\n    return true;\n",
  "    return phase >= RUNNING;\n", "    final int p = phase;\n    return p == CANCELLED || p == ENDED;\n",
  "    if (!isEnded()) {\n      if (state.equals(endState)) {\n        phase = phase == RUNNING ? ENDED : CANCELLED;\n      }\n      currentState = state;\n    }\n", "")
lifecycle("g3-lifecycle-atomicref", "  private final java.util.concurrent.atomic.AtomicReference<Phase> phase = new java.util.concurrent.atomic.AtomicReference<>(Phase.NEW);\n", "",
  "    if (isStarted()) {\n      return false;\n    }\n    currentState = state;\n    phase.set(Phase.RUNNING);\n    return true;\n",
  "    return phase.get().started;\n", "    return phase.get().ended;\n",
  "    final Phase now = phase.get();\n    if (!now.ended) {\n      if (state.equals(endState)) {\n        phase.set(now == Phase.RUNNING ? Phase.ENDED : Phase.CANCELLED);\n      }\n      currentState = state;\n    }\n",
  "  private enum Phase {\n    NEW(false, false), CANCELLED(false, true), RUNNING(true, false), ENDED(true, true);\n\n    private final boolean started;\n    private final boolean ended;\n\n    Phase(boolean started, boolean ended) {\n      this.started = started;\n      this.ended = ended;\n    }\n  }\n\n")
lifecycle("g3-lifecycle-volatile", "  private volatile boolean isStarted;\n  private volatile boolean isEnded;\n", "",
  "    if (isStarted) {\n      return false;\n    }\n    isEnded = false;\n    currentState = state;\n    isStarted = true;\n    return true;\n",
  "    return isStarted;\n", "    return isEnded;\n",
  "    if (!isEnded) {\n      isEnded = state.equals(endState);\n      currentState = state;\n    }\n", "")
lifecycle("g3-lifecycle-holder", "  private final Flags flags = new Flags();\n", "",
  "    if (flags.started) {\n      return false;\n    }\n    flags.ended = false;\n    currentState = state;\n    flags.started = true;\n    return true;\n",
  "    return flags.started;\n", "    return flags.ended;\n",
  "    if (flags.ended) {\n      return;\n    }\n    if (endState.equals(state)) {\n      flags.ended = true;\n    }\n    currentState = state;\n",
  "  private static final class Flags {\n    private volatile boolean started;\n    private volatile boolean ended;\n  }\n\n")
ref("g3-fire-phase",
  (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    final boolean started = isStarted.get();
    final boolean running = started && !isEnded.get();
    if (running) {
      eventProcessingStrategy.processEvent(stateEvent, this);
      return;
    }
    if (started) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    }
'''))
ref("g3-notify-or-default",
  (G, '''      if (fromState == null) {
        fromState = this.noState;
      }
      if (toState == null) {
        toState = this.noState;
      }
      if (stateEvent == null) {
        stateEvent = this.immediateEvent;
      }
''', '''      fromState = orDefault(fromState, this.noState);
      toState = orDefault(toState, this.noState);
      stateEvent = orDefault(stateEvent, this.immediateEvent);
'''),
  (G, "  public StateEvent<S> getImmediateEvent() {\n", '''  private static <V> V orDefault(V value, V fallback) {
    return value == null ? fallback : value;
  }

  public StateEvent<S> getImmediateEvent() {
'''))
ref("g3-notify-overloads",
  (G, "      if (isComplete) {\n        listener.onStateChangeEnd(fromState, stateEvent, toState);\n      } else {\n        listener.onStateChangeBegin(fromState, stateEvent, toState);\n      }\n", '''      final Announcement<T, S> announcement = isComplete ? listener::onStateChangeEnd
          : listener::onStateChangeBegin;
      announcement.tell(fromState, stateEvent, toState);
'''),
  (G, "  public static class Builder<T, S> {\n", '''  @FunctionalInterface
  private interface Announcement<T, S> {

    void tell(State<T, S> from, StateEvent<S> event, State<T, S> to);
  }

  public static class Builder<T, S> {
'''))
ref("g3-validate-optional",
  (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    this.states.forEach((state, row) -> row.forEach((event, target) -> {
      if (target == null) {
        throw new IllegalStateException(
            "State " + state.getName() + " dose not transition when a " + event.getName()
                + " event is received");
      }
    }));
'''))
ref("g3-validate-containsvalue",
  (G, '''      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
''', '''      State<T, S> key = entry.getKey();
      if (!entry.getValue().containsValue(null)) {
        continue;
      }
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
'''))
ref("g3-start-try-finally",
  (G, "    if (beginIn(initState)) {\n", "    final boolean begun = beginIn(initState);\n    if (begun) {\n"),
  (G, '''      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
''', '''      enter(noState, immediateEvent, initState);
'''),
  (G, "  /**\n   * This causes an immediate stop", '''  private void enter(State<T, S> from, StateEvent<S> event, State<T, S> to) {
    notifyStateMachineListener(false, from, event, to);
    to.onEntry(event, this);
    notifyStateMachineListener(true, from, event, to);
  }

  /**
   * This causes an immediate stop'''))
ref("g3-builder-copy",
  (G, '''      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
      if (strategy == null) {
        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
      }
      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
''', '''      final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table = new HashMap<>();
      return new GenericStateMachine<>(context, table, stateMachineListener, strategyOrDefault());
    }

    private EventProcessingStrategy<T, S> strategyOrDefault() {
      return java.util.Optional.ofNullable(eventProcessingStrategy)
          .orElseGet(EventProcessingStrategyFactory::createDefaultStrategy);
'''))
ref("g3-update-guarded",
  (G, "    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }\n", '''    final boolean ends = endState.equals(state);
    if (!isEnded.get()) {
      currentState = state;
      isEnded.set(ends);
    }
'''))
ref("g3-constants",
  (G, '      throw new IllegalStateException("The state machine has already been started");\n    }\n  }\n\n  /**\n   * This', '      throw alreadyStarted();\n    }\n  }\n\n  private static IllegalStateException alreadyStarted() {\n    return new IllegalStateException("The state machine has already been started");\n  }\n\n  /**\n   * This'),
  (G, '    if (!beginIn(state)) {\n      throw new IllegalStateException("The state machine has already been started");\n    }\n', '    if (!beginIn(state)) {\n      throw alreadyStarted();\n    }\n'))
ref("g3-begin-cas",
  (G, "    if (isStarted.get()) {\n      return false;\n    }\n    isEnded.set(false);\n    currentState = state;\n    isStarted.set(true);\n    return true;\n", "    final boolean first = !isStarted.get();\n    if (first) {\n      isEnded.set(false);\n      currentState = state;\n    }\n    return isStarted.compareAndSet(false, true);\n"))
# --- TransitionTask
ref("tt3-compute", (TT, EXEC, '''    final State<T, S> fromState = machine.getCurrentState();
    final Map<StateEvent<S>, State<T, S>> outcomes = states.get(fromState);
    final State<T, S> toState = outcomes.get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    final boolean stays = toState.equals(machine.getNoopState());
    machine.notifyStateMachineListener(false, fromState, event, toState);
    if (stays) {
      machine.notifyStateMachineListener(true, fromState, event, toState);
      return;
    }
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
    final Map<StateEvent<S>, State<T, S>> next = states.get(toState);
    final boolean ends = next == null
        || machine.getEndState().equals(next.get(machine.getImmediateEvent()));
    if (ends) {
      machine.stop();
    }
  }
'''))
ref("tt3-end-first", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
''', '''    if (!states.containsKey(toState)) {
      machine.stop();
      return;
    }
    State<T, S> immediate = states.get(toState).get(machine.getImmediateEvent());
    if (immediate != null && immediate.equals(machine.getEndState())) {
      machine.stop();
    }
'''))
ref("tt3-strategy-objects", (TT, EXEC, '''    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    Outcome<T, S> outcome;
    if (toState == null) {
      outcome = (from, to) -> unmappedEventHandler.accept(event, machine);
    } else if (machine.getNoopState().equals(toState)) {
      outcome = (from, to) -> {
        machine.notifyStateMachineListener(false, from, event, to);
        machine.notifyStateMachineListener(true, from, event, to);
      };
    } else {
      outcome = (from, to) -> move(machine, event, from, to);
    }
    outcome.apply(machine.getCurrentState(), toState);
  }

  private void move(GenericStateMachine<T, S> machine, StateEvent<S> event, State<T, S> from, State<T, S> to) {
    machine.notifyStateMachineListener(false, from, event, to);
    from.onExit(event, machine);
    machine.updateCurrentState(to);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, from, event, to);
    Map<StateEvent<S>, State<T, S>> row = states.get(to);
    if (row != null && !machine.getEndState().equals(row.get(machine.getImmediateEvent()))) {
      return;
    }
    machine.stop();
  }

  private interface Outcome<T, S> {

    void apply(State<T, S> from, State<T, S> to);
  }
'''))
ref("tt3-lookup-helper", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    State<T, S> toState = lookup(machine.getCurrentState(), event);\n"),
  (TT, "        .equals(states.get(toState).get(machine.getImmediateEvent()))) {\n", "        .equals(lookup(toState, machine.getImmediateEvent()))) {\n"),
  (TT, "  public void setStates(", '''  private State<T, S> lookup(State<T, S> state, StateEvent<S> event) {
    return states.get(state).get(event);
  }

  public void setStates('''))
ref("tt3-public-execute-api", (TT, "  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {\n", "  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {\n    assert event != null : \"event\";\n"))
# --- DefaultEventStrategy
DRAIN = '''    executor.execute(() -> {
      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
    });
  }
'''
ref("ds3-phases", (DS, '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
    if (!eventQueue.offer(inboundPair)) {
      eventMachinePairPool.give(inboundPair);
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
      return;
    }
''' + DRAIN, '''    if (enqueue(stateEvent, stateMachine)) {
      executor.execute(() -> drain(stateMachine));
    }
  }

  private boolean enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    inboundPair.setEventMachinePair(safeCopy(stateEvent), stateMachine);
    boolean queued = eventQueue.offer(inboundPair);
    if (!queued) {
      eventMachinePairPool.give(inboundPair);
      reject(stateEvent, stateMachine, "The event queue refused the event - dropping event");
    }
    return queued;
  }

  private void reject(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine, String why) {
    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
        Thread.currentThread(), new IllegalStateException(why));
  }

  private StateEvent<S> safeCopy(StateEvent<S> stateEvent) {
    return stateEvent instanceof NamedStateEvent ? new NamedStateEvent<>(stateEvent) : stateEvent;
  }

  private void drain(GenericStateMachine<T, S> firingMachine) {
    EventMachinePair<T, S> next;
    while ((next = eventQueue.poll()) != null) {
      process(next, firingMachine);
    }
  }

  private void process(EventMachinePair<T, S> pair, GenericStateMachine<T, S> firingMachine) {
    StateEvent<S> event = pair.getStateEvent();
    GenericStateMachine<T, S> machine = pair.getStateMachine();
    try {
      if (firingMachine.isEnded()) {
        return;
      }
      transitionTask.execute(event, machine);
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
          Thread.currentThread(), e);
    } finally {
      eventMachinePairPool.give(pair);
    }
  }
'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
''', '''      reject(stateEvent, stateMachine,
          String.format("Queue size is maxed out at %s - dropping event", queueSize));
      return;
'''))
ref("ds3-drain-class", (DS, DRAIN, '''    executor.execute(new EventDrain<>(eventQueue, transitionTask, unexpectedFlowListener,
        eventMachinePairPool, stateMachine));
  }
'''), (M + "strategy/EventDrain.java", None, '''package com.webotech.statemachine.strategy;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import java.util.Queue;

final class EventDrain<T, S> implements Runnable {

  private final Queue<EventMachinePair<T, S>> queue;
  private final TransitionTask<T, S> task;
  private final UnexpectedFlowListener<T, S> listener;
  private final EventMachinePairPool<T, S> pool;
  private final GenericStateMachine<T, S> stateMachine;

  EventDrain(Queue<EventMachinePair<T, S>> queue, TransitionTask<T, S> task,
      UnexpectedFlowListener<T, S> listener, EventMachinePairPool<T, S> pool,
      GenericStateMachine<T, S> stateMachine) {
    this.queue = queue;
    this.task = task;
    this.listener = listener;
    this.pool = pool;
    this.stateMachine = stateMachine;
  }

  @Override
  public void run() {
    for (EventMachinePair<T, S> pair = queue.poll(); pair != null; pair = queue.poll()) {
      consume(pair);
    }
  }

  private void consume(EventMachinePair<T, S> pair) {
    final StateEvent<S> event = pair.getStateEvent();
    final GenericStateMachine<T, S> machine = pair.getStateMachine();
    try {
      if (!stateMachine.isEnded()) {
        task.execute(event, machine);
      }
    } catch (Exception e) {
      listener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), e);
    } finally {
      pool.give(pair);
    }
  }
}
'''))
ref("ds3-own-machine-ended", (DS, "          if (!stateMachine.isEnded()) {\n", "          if (!machine.isEnded()) {\n"))
ref("ds3-catch-runtime-and-checked", (DS, '''        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
''', '''        } catch (RuntimeException e) {
          report(event, machine, e);
        } catch (Exception e) {
          report(event, machine, e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
'''), (DS, "  @Override\n  public void setStates(", '''  private void report(StateEvent<S> event, GenericStateMachine<T, S> machine, Exception e) {
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), e);
  }

  @Override
  public void setStates('''))
ref("ds3-nested-try", (DS, '''        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
''', '''        try {
          try {
            if (!stateMachine.isEnded()) {
              transitionTask.execute(event, machine);
            }
          } catch (Exception e) {
            Thread current = Thread.currentThread();
            unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, current, e);
          }
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
'''))
ref("ds3-bounded-field", (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final boolean bounded;\n"),
  (DS, "    this.maxQueueSize = maxQueueSize;\n", "    this.maxQueueSize = maxQueueSize;\n    this.bounded = maxQueueSize > 0;\n"),
  (DS, "    int queueSize = getEventQueueSize();\n    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {\n", "    final int queueSize = bounded ? eventQueue.size() : 0;\n    if (bounded && !(queueSize < maxQueueSize)) {\n"))
ref("ds3-try-add", (DS, "    if (!eventQueue.offer(inboundPair)) {\n", "    final boolean accepted = eventQueue.offer(inboundPair);\n    if (accepted == false) {\n"))
ref("ds3-pair-fill-method", (EMP, "  StateEvent<S> getStateEvent() {\n", '''  EventMachinePair<T, S> filledWith(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    setEventMachinePair(event, machine);
    return this;
  }

  StateEvent<S> getStateEvent() {
'''), (DS, '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
''', '''    final StateEvent<S> carried;
    if (stateEvent instanceof NamedStateEvent) {
      carried = new NamedStateEvent<>(stateEvent);
    } else {
      carried = stateEvent;
    }
    EventMachinePair<T, S> inboundPair = eventMachinePairPool.take().filledWith(carried, stateMachine);
'''))
# --- DropDuplicate
ref("dd3-subclass-hook", (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {\n", '''  boolean isQueued(StateEvent<S> stateEvent) {
    for (EventMachinePair<T, S> pair : eventQueue) {
      if (stateEvent.equals(pair.getStateEvent())) {
        return true;
      }
    }
    return false;
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {
'''), (DD, '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
''', '''    if (!defaultStrategy.isQueued(stateEvent)) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    } else {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    }
'''))
ref("dd3-predicate-var", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    final java.util.function.Predicate<EventMachinePair<T, S>> same = pair -> stateEvent.equals(\n        pair.getStateEvent());\n    final boolean duplicate = eventQueue.stream().filter(java.util.Objects::nonNull).anyMatch(same);\n    if (duplicate) {\n"))
ref("dd3-do-while", (DD, '''    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
''', '''    java.util.Iterator<EventMachinePair<T, S>> waiting = eventQueue.iterator();
    boolean found = false;
    while (!found && waiting.hasNext()) {
      found = stateEvent.equals(waiting.next().getStateEvent());
    }
    if (found) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
'''))
# --- pool
ref("pool3-stack", (POOL, "  private final Queue<EventMachinePair<T, S>> pool = new ConcurrentLinkedQueue<>();\n", "  private final java.util.concurrent.ConcurrentLinkedDeque<EventMachinePair<T, S>> pool = new java.util.concurrent.ConcurrentLinkedDeque<>();\n"),
  (POOL, "import java.util.Queue;\n", ""), (POOL, "import java.util.concurrent.ConcurrentLinkedQueue;\n", ""),
  (POOL, "pool.poll()", "pool.pollFirst()"), (POOL, "pool.offer(", "pool.addFirst("))
ref("pool3-clear-method", (EMP, "  StateEvent<S> getStateEvent() {\n", "  void clear() {\n    this.stateEvent = null;\n    this.stateMachine = null;\n  }\n\n  StateEvent<S> getStateEvent() {\n"),
  (POOL, "      eventMachinePair.setEventMachinePair(null, null);\n", "      eventMachinePair.clear();\n"))
ref("pool3-guard-return", (POOL, '''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    if (eventMachinePair == null) {
      return;
    }
    eventMachinePair.setEventMachinePair(null, null);
    pool.add(eventMachinePair);
'''))
# --- factory
ref("f3-daemon-helper", (F, '''        return Executors.newSingleThreadExecutor(
            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
      }
      return executor;
''', '''        final String name = threadName != null ? threadName : "state-machine";
        final java.util.concurrent.ThreadFactory threads = Threads.newNamedDaemonThreadFactory(name,
            Config::logUncaught);
        return Executors.newSingleThreadExecutor(threads);
      }
      return executor;
    }

    private static void logUncaught(Thread thread, Throwable error) {
      logger.error(LOG_UNHANDLED_EXCEPTION, thread.getName(), error);
'''))
ref("f3-tpe", (F, "        return Executors.newSingleThreadExecutor(\n            Threads", "        return new java.util.concurrent.ThreadPoolExecutor(1, 1, 0L,\n            java.util.concurrent.TimeUnit.MILLISECONDS, new java.util.concurrent.LinkedBlockingQueue<>(),\n            Threads"))
ref("f3-build-on-config", (F, '''    return new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),
        config.getUnexpectedFlowListener(), config.getMaxQueueSize(), config.getEventQueue());
''', '''    return config.toStrategy();
'''), (F, "    int getMaxQueueSize() {\n", '''    private DefaultEventStrategy<T, S> toStrategy() {
      final Queue<EventMachinePair<T, S>> queue = getEventQueue();
      final ExecutorService worker = getExecutor();
      return new DefaultEventStrategy<>(getUnmappedEventHandler(), worker,
          getUnexpectedFlowListener(), getMaxQueueSize(), queue);
    }

    int getMaxQueueSize() {
'''))
ref("f3-default-handler-static", (F, '''        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
      }
      return unmappedEventHandler;
''', '''        return Config::logNotMapped;
      }
      return unmappedEventHandler;
    }

    private static <A, B> void logNotMapped(StateEvent<B> event, StateMachine<A, B> machine) {
      logger.info(LOG_EVENT_NOT_MAPPED, event.getName(), machine.getCurrentState().getName());
'''))
ref("f3-flow-listener-ternary", (F, '''      if (unexpectedFlowListener == null) {
        unexpectedFlowListener = new DefaultUnexpectedFlowListener<>();
      }
      return unexpectedFlowListener;
''', '''      return unexpectedFlowListener == null ? new DefaultUnexpectedFlowListener<>()
          : unexpectedFlowListener;
'''))
# --- NamedState / NamedStateEvent
ref("ns3-actions-class", (M + "Actions.java", None, '''package com.webotech.statemachine;

import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.List;

final class Actions<T, S> {

  private final List<StateAction<T, S>> all = new ArrayList<>();

  void append(StateAction<T, S>[] actions) {
    for (StateAction<T, S> action : actions) {
      if (action != null) {
        all.add(action);
      }
    }
  }

  void run(StateEvent<S> event, StateMachine<T, S> machine) {
    for (StateAction<T, S> action : all) {
      action.execute(event, machine);
    }
  }
}
'''), (NS, "  private final List<StateAction<T, S>> entryActions;\n  private final List<StateAction<T, S>> exitActions;\n", "  private final Actions<T, S> entryActions;\n  private final Actions<T, S> exitActions;\n"),
  (NS, "    this.entryActions = new ArrayList<>();\n    this.exitActions = new ArrayList<>();\n", "    this.entryActions = new Actions<>();\n    this.exitActions = new Actions<>();\n"),
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    this.entryActions.run(stateEvent, stateMachine);\n"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    this.exitActions.run(stateEvent, stateMachine);\n"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);\n", "    entryActions.append(actions);\n"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);\n", "    exitActions.append(actions);\n"),
  (NS, "import java.util.ArrayList;\nimport java.util.List;\n", ""), (NS, "import java.util.stream.Stream;\n", ""))
ref("ns3-tolist", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);\n", "    this.entryActions.addAll(nonNull(actions));\n"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);\n", "    this.exitActions.addAll(nonNull(actions));\n"),
  (NS, "  @Override\n  public String getName() {\n", '''  @SafeVarargs
  private static <T, S> List<StateAction<T, S>> nonNull(StateAction<T, S>... actions) {
    List<StateAction<T, S>> kept = new ArrayList<>(actions.length);
    for (StateAction<T, S> action : actions) {
      if (action != null) {
        kept.add(action);
      }
    }
    return kept;
  }

  @Override
  public String getName() {
'''))
ref("ns3-equals-name-local", (NS, '''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
''', '''    boolean same = this == o;
    if (!same && o instanceof NamedState<?, ?>) {
      final String otherName = ((NamedState<?, ?>) o).name;
      same = name == null ? otherName == null : name.equals(otherName);
    }
    return same;
'''))
ref("ns3-hash-field", (NS, "  private final String name;\n", "  private final String name;\n  private final int hash;\n"), (NS, "    this.name = name;\n", "    this.name = name;\n    this.hash = name == null ? 0 : name.hashCode();\n"),
  (NS, "    return Objects.hashCode(name);\n", "    return hash;\n"))
ref("ne3-equals-instanceof", (NE, '''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);
''', '''    return o instanceof NamedStateEvent && Objects.equals(name, ((NamedStateEvent<?>) o).name);
'''))
ref("ne3-hash-lazy", (NE, "  private S payload;\n", "  private S payload;\n  private int hash;\n"), (NE, "    return Objects.hashCode(name);\n", "    int h = hash;\n    if (h == 0) {\n      h = Objects.hashCode(name);\n      hash = h;\n    }\n    return h;\n"))
# --- HandleException
ref("he3-catch-two", (HE, '''    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    } catch (RuntimeException e) {
      handle(stateEvent, stateMachine, e);
    } catch (Exception e) {
      handle(stateEvent, stateMachine, e);
    }
  }

  private void handle(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine, Exception e) {
    exceptionHandler.onException(stateEvent, stateMachine, e);
'''))
ref("he3-outcome", (HE, '''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    Exception failure = attempt(stateEvent, stateMachine);
    if (failure == null) {
      return;
    }
    exceptionHandler.onException(stateEvent, stateMachine, failure);
  }

  private Exception attempt(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    Exception thrown = null;
    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      thrown = e;
    }
    return thrown;
'''))
# --- MultiConsumer
LOOPS = '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChange%s(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
'''
ref("mc3-forall", (MC, LOOPS % "Begin", "    forAll(l -> l.onStateChangeBegin(fromState, event, toState));\n"), (MC, LOOPS % "End", "    forAll(l -> l.onStateChangeEnd(fromState, event, toState));\n"),
  (MC, "  private static RuntimeException firstFailure(", '''  private void forAll(java.util.function.Consumer<StateMachineListener<T, S>> call) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> listener : consumers.values()) {
      RuntimeException thrown = null;
      try {
        call.accept(listener);
      } catch (RuntimeException e) {
        thrown = e;
      }
      if (thrown != null) {
        failure = firstFailure(failure, thrown);
      }
    }
    if (failure != null) {
      throw failure;
    }
  }

  private static RuntimeException firstFailure('''))
ref("mc3-set", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n", "  private final java.util.Set<StateMachineListener<T, S>> consumers;\n"),
  (MC, "    this.consumers = new ConcurrentHashMap<>();\n", "    this.consumers = ConcurrentHashMap.newKeySet();\n"),
  (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n", "    return this.consumers.add(stateMachineListener);\n"),
  (MC, "    return this.consumers.remove(stateMachineListener) != null;\n", "    return this.consumers.remove(stateMachineListener);\n"),
  (MC, LOOPS % "Begin", (LOOPS % "Begin").replace("consumers.values()", "consumers")), (MC, LOOPS % "End", (LOOPS % "End").replace("consumers.values()", "consumers")),
  (MC, "import java.util.Map;\n", ""))
ref("mc3-cow-set", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n", "  private final java.util.concurrent.CopyOnWriteArraySet<StateMachineListener<T, S>> consumers;\n"),
  (MC, "    this.consumers = new ConcurrentHashMap<>();\n", "    this.consumers = new java.util.concurrent.CopyOnWriteArraySet<>();\n"),
  (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n", "    return this.consumers.add(stateMachineListener);\n"),
  (MC, "    return this.consumers.remove(stateMachineListener) != null;\n", "    return this.consumers.remove(stateMachineListener);\n"),
  (MC, LOOPS % "Begin", (LOOPS % "Begin").replace("consumers.values()", "consumers")), (MC, LOOPS % "End", (LOOPS % "End").replace("consumers.values()", "consumers")),
  (MC, "import java.util.Map;\n", ""), (MC, "import java.util.concurrent.ConcurrentHashMap;\n", ""))
ref("mc3-cow-list", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n", "  private final java.util.concurrent.CopyOnWriteArrayList<StateMachineListener<T, S>> consumers;\n"),
  (MC, "    this.consumers = new ConcurrentHashMap<>();\n", "    this.consumers = new java.util.concurrent.CopyOnWriteArrayList<>();\n"),
  (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n", "    return this.consumers.addIfAbsent(stateMachineListener);\n"),
  (MC, "    return this.consumers.remove(stateMachineListener) != null;\n", "    return this.consumers.remove(stateMachineListener);\n"),
  (MC, LOOPS % "Begin", (LOOPS % "Begin").replace("consumers.values()", "consumers")), (MC, LOOPS % "End", (LOOPS % "End").replace("consumers.values()", "consumers")),
  (MC, "import java.util.Map;\n", ""), (MC, "import java.util.concurrent.ConcurrentHashMap;\n", ""))
ref("mc3-boolean-map", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n", "  private final Map<StateMachineListener<T, S>, Boolean> consumers;\n"),
  (MC, "putIfAbsent(stateMachineListener, stateMachineListener) == null", "putIfAbsent(stateMachineListener, Boolean.TRUE) == null"),
  (MC, LOOPS % "Begin", (LOOPS % "Begin").replace("consumers.values()", "consumers.keySet()")), (MC, LOOPS % "End", (LOOPS % "End").replace("consumers.values()", "consumers.keySet()")))
# --- Logging
ref("ll3-display", (LL, '''    if (this.name != null && !this.name.isEmpty()) {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),
            newState.getName());
      }
    } else {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(),
            newState.getName());
      }
    }
''', '''    final boolean anonymous = this.name == null || this.name.isEmpty();
    final String target = newState.getName();
    if (isComplete && anonymous) {
      logger.info(LOG_TRANSITIONED, target);
    } else if (isComplete) {
      logger.info(LOG_TRANSITIONED_NAMED, this.name, target);
    } else if (anonymous) {
      logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(), target);
    } else {
      logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(), target);
    }
'''))
ref("ll3-guarded", (LL, "    if (this.name != null && !this.name.isEmpty()) {\n", "    if (!logger.isInfoEnabled()) {\n      return;\n    }\n    if (this.name != null && !this.name.isEmpty()) {\n"))
# --- Threads
ref("th3-ctor", (TH, '''      Thread thread = new Thread(runnable);
      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));
      thread.setDaemon(true);
      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);
      return thread;
''', '''      return supervised(new Thread(runnable, nextName()));
    }

    private String nextName() {
      int number = threadNumber.getAndIncrement();
      return threadName + "-" + number;
    }

    private Thread supervised(Thread thread) {
      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);
      thread.setDaemon(true);
      return thread;
'''))
ref("th3-handler-null-check", (TH, "      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n", "      if (uncaughtExceptionHandler != null) {\n        thread.setUncaughtExceptionHandler(uncaughtExceptionHandler);\n      }\n"))
# --- app service
ref("as3-actions-methods", (AS, '''          logger.info("Starting {} with args {}", appName, appContext.getInitArgs());
          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
        }, exceptionHandler));
''', '''          logger.info("Starting {} with args {}", appName, appContext.getInitArgs());
          startSubsystems();
          complete();
        }, exceptionHandler));
'''), (AS, '''          logger.info("Stopping {}", appName);
          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
''', '''          logger.info("Stopping {}", appName);
          stopSubsystems();
          complete();
'''), (AS, "  @Override\n  public C getAppContext() {\n", '''  private void startSubsystems() {
    appContext.getSubsystems().forEach(s -> s.start(appContext));
  }

  private void stopSubsystems() {
    List<Subsystem<C>> reversed = new java.util.ArrayList<>(appContext.getSubsystems());
    java.util.Collections.reverse(reversed);
    for (Subsystem<C> subsystem : reversed) {
      subsystem.stop(appContext);
    }
  }

  private void complete() {
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  @Override
  public C getAppContext() {
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("as3-in-state", (AS, '''    String currentAppState = stateName(getLifecycleState());
    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    final String current = stateName(getLifecycleState());
    final boolean isStarted = LifecycleStateMachineUtil.STATE_STARTED.equals(current);
    final boolean isStopped = LifecycleStateMachineUtil.STATE_STOPPED.equals(current);
    if (!isStarted && !isStopped) {
      throw new IllegalStateException("Cannot stop the app when it's in [" + current + "] state");
    }
    if (isStarted || !isExitOnStop) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    }
'''))
ref("as3-await-helper", (AS, '''      try {
        appLatch.await();
      } catch (InterruptedException e) {
        logger.error("Main latch was interrupted", e);
        Thread.currentThread().interrupt();
        if (!appStateMachine.isEnded()) {
          stop();
        }
      }
    } else if''', '''      awaitEnd();
    } else if'''), (AS, "  private String stateName(", '''  private void awaitEnd() {
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      Thread.currentThread().interrupt();
      if (appStateMachine.isEnded()) {
        return;
      }
      stop();
    }
  }

  private String stateName('''))
ref("as3-semaphore-like-future", (AS, "    stopped.appendExitActions((event, stateMachine) -> {\n      if (LifecycleStateMachineUtil.evtStop.equals(event)) {\n", "    stopped.appendExitActions((event, stateMachine) -> {\n      final boolean last = event.equals(LifecycleStateMachineUtil.evtStop);\n      if (last) {\n"))
ref("as3-lookup-strings", (AS, "    return state != null ? state.getName() : null;\n", "    if (state == null) {\n      return null;\n    }\n    return state.getName();\n"))
ref("lu3-builder-loop", (LU, '''    NamedState<T, S> state = new NamedState<>(name);
    state.appendEntryActions(entryActions);
    return state;
''', '''    NamedState<T, S> state = new NamedState<>(name);
    for (StateAction<T, S> action : entryActions) {
      state.appendEntryActions(action);
    }
    return state;
'''))
ref("lu3-config-helper", (LU, "    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);\n    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);\n", "    onCompleteOrError(stateMachine, starting, started, stopped);\n"),
  (LU, "    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);\n    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);\n", "    onCompleteOrError(stateMachine, stopping, stopped, stopped);\n"),
  (LU, "  @SafeVarargs\n  private static <T, S> State<T, S> newState(", '''  private static <T> void onCompleteOrError(StateMachine<T, Void> stateMachine,
      State<T, Void> from, State<T, Void> onComplete, State<T, Void> onError) {
    stateMachine.when(from).receives(evtComplete).itTransitionsTo(onComplete)
        .when(from).receives(evtError).itTransitionsTo(onError);
  }

  @SafeVarargs
  private static <T, S> State<T, S> newState('''))
ref("ac3-plain-copy", (AC, "    return subsystemsRef.get();\n", "    final List<Subsystem<C>> current = subsystemsRef.get();\n    return current;\n"))
# statements that do nothing, everywhere
ref("noop-everywhere",
  (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    int unused = 0;\n    unused++;\n    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n"),
  (G, "    assertInitStateDefined(true);\n    if (this.states.isEmpty()) {\n", "    long begun = System.nanoTime();\n    assertInitStateDefined(true);\n    if (this.states.isEmpty()) {\n"),
  (DS, "    int queueSize = getEventQueueSize();\n", "    String who = Thread.currentThread().getName();\n    if (who == null) {\n      who = \"\";\n    }\n    int queueSize = getEventQueueSize();\n"),
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    Object[] nothing = new Object[]{stateEvent};\n    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n"),
  (MC, "    return this.consumers.remove(stateMachineListener) != null;\n", "    boolean no = false;\n    if (no) {\n      return false;\n    }\n    return this.consumers.remove(stateMachineListener) != null;\n"),
  (AS, "    String currentAppState = stateName(getLifecycleState());\n    if (!appStateMachine", "    StringBuilder nothing = new StringBuilder();\n    nothing.append(1);\n    String currentAppState = stateName(getLifecycleState());\n    if (!appStateMachine"),
  (TH, "      Thread thread = new Thread(runnable);\n", "      assert runnable != null;\n      Thread thread = new Thread(runnable);\n"))
ref("noop-objects", (G, "    if (isStarted.get()) {\n", "    java.util.Objects.hashCode(state);\n    if (isStarted.get()) {\n"), (DD, "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n", "    ;\n    {\n      int i = 1 + 1;\n    }\n    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n"))

# --- not behaviour-preserving, but right: events in progress count (the known finding on C27 is gone)
ref("g3-pending-counter",
  (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicInteger pending = new java.util.concurrent.atomic.AtomicInteger();\n"),
  (DS, "    return eventQueue.size();\n", "    return pending.get();\n"),
  (DS, "    int queueSize = getEventQueueSize();\n", "    int queueSize = eventQueue.size();\n"),
  (DS, "    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();\n", "    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();\n    pending.incrementAndGet();\n"),
  (DS, "    if (!eventQueue.offer(inboundPair)) {\n", "    if (!eventQueue.offer(inboundPair)) {\n      pending.decrementAndGet();\n"),
  (DS, "          eventMachinePairPool.give(consumedPair);\n", "          pending.decrementAndGet();\n          eventMachinePairPool.give(consumedPair);\n"))
