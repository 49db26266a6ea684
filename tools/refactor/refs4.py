"""A fourth set: newer language features, shared base classes, tables of functions, helpers in new files."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
R = []
def ref(name, *edits): R.append((name, edits))

# --- a base class shared by the two named things
ref("h4-named-base",
  (M + "Named.java", None, '''package com.webotech.statemachine;

import java.util.Objects;
import java.util.StringJoiner;

abstract class Named {

  protected final String name;

  protected Named(String name) {
    this.name = name;
  }

  public String getName() {
    return name;
  }

  @Override
  public boolean equals(Object other) {
    if (other == this) {
      return true;
    }
    return other != null && other.getClass() == getClass() && Objects.equals(((Named) other).name, name);
  }

  @Override
  public int hashCode() {
    return Objects.hash(name);
  }

  @Override
  public String toString() {
    return new StringJoiner(", ", getClass().getSimpleName() + "[", "]").add(name).toString();
  }
}
'''),
  (NS, '''public final class NamedState<T, S> implements''', '''public final class NamedState<T, S> extends Named implements'''),
  (NS, '''  private final String name;
''', ''), (NS, "    this.name = name;\n", "    super(name);\n"),
  (NS, '''  @Override
  public String getName() {
    return this.name;
  }

  @Override
  public boolean equals(Object o) {
    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
  }

  @Override
  public int hashCode() {
    return Objects.hashCode(name);
  }

  @Override
  public String toString() {
    return new StringJoiner(", ", NamedState.class.getSimpleName() + "[", "]")
        .add(name).toString();
  }
''', ''),
  (NE, '''public final class NamedStateEvent<S> implements''', '''public final class NamedStateEvent<S> extends Named implements'''),
  (NE, '''  private final String name;
''', ''), (NE, "    this.name = name;\n", "    super(name);\n"),
  (NE, '''  @Override
  public String getName() {
    return this.name;
  }

''', ''),
  (NE, '''  @SuppressWarnings({"unchecked", "rawtypes"})
  @Override
  public boolean equals(Object o) {
    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);
  }

  @Override
  public int hashCode() {
    return Objects.hashCode(name);
  }

  @Override
  public String toString() {
    return new StringJoiner(", ", NamedStateEvent.class.getSimpleName() + "[", "]")
        .add(name).toString();
  }
''', ''))

# --- pattern matching
ref("h4-pattern-instanceof",
  (DS, '''    if (stateEvent instanceof NamedStateEvent) {
''', '''    if (stateEvent instanceof NamedStateEvent<S> named) {
'''), (DS, "new NamedStateEvent<>(stateEvent), stateMachine", "new NamedStateEvent<>(named), stateMachine"),
  (NE, '''    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);''', '''    return o instanceof NamedStateEvent<?> that && Objects.equals(name, that.name);'''),
  (NS, '''    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);''', '''    return o instanceof NamedState<?, ?> that && Objects.equals(name, that.name);'''))

# --- transition as a record
ref("h4-transition-record",
  (TT, EXEC, '''    Optional<Step<T, S>> step = stepFor(event, machine);
    if (step.isEmpty()) {
      unmappedEventHandler.accept(event, machine);
    } else if (machine.getNoopState().equals(step.get().to())) {
      stay(step.get(), machine);
    } else {
      move(step.get(), machine);
    }
  }

  private Optional<Step<T, S>> stepFor(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    State<T, S> from = machine.getCurrentState();
    return Optional.ofNullable(states.get(from).get(event)).map(to -> new Step<>(from, event, to));
  }

  private void stay(Step<T, S> step, GenericStateMachine<T, S> machine) {
    // No transition but notify the listener so it can tell a StateEvent was received
    machine.notifyStateMachineListener(false, machine.getCurrentState(), step.on(), step.to());
    machine.notifyStateMachineListener(true, machine.getCurrentState(), step.on(), step.to());
  }

  private void move(Step<T, S> step, GenericStateMachine<T, S> machine) {
    machine.notifyStateMachineListener(false, step.from(), step.on(), step.to());
    machine.getCurrentState().onExit(step.on(), machine);
    machine.updateCurrentState(step.to());
    machine.getCurrentState().onEntry(step.on(), machine);
    machine.notifyStateMachineListener(true, step.from(), step.on(), step.to());
    if (isFinal(step.to(), machine)) {
      machine.stop();
    }
  }

  private boolean isFinal(State<T, S> state, GenericStateMachine<T, S> machine) {
    Map<StateEvent<S>, State<T, S>> row = states.get(state);
    return row == null || machine.getEndState().equals(row.get(machine.getImmediateEvent()));
  }

  private record Step<T, S>(State<T, S> from, StateEvent<S> on, State<T, S> to) {

  }
'''),
  (TT, "import java.util.Map;", "import java.util.Map;\nimport java.util.Optional;"))
ref("h4-ifpresentorelse",
  (TT, '''    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
''', '''    Optional.ofNullable(states.get(machine.getCurrentState()).get(event)).ifPresentOrElse(
        toState -> follow(toState, event, machine), () -> unmappedEventHandler.accept(event, machine));
  }

  private void follow(State<T, S> toState, StateEvent<S> event, GenericStateMachine<T, S> machine) {
'''), (TT, "import java.util.Map;", "import java.util.Map;\nimport java.util.Optional;"))
ref("h4-notifier-class",
  (TT, EXEC, '''    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    if (machine.getNoopState().equals(toState)) {
      new Change(machine, event, toState).around(() -> {
      });
      return;
    }
    new Change(machine, event, toState).around(() -> {
      machine.getCurrentState().onExit(event, machine);
      machine.updateCurrentState(toState);
      machine.getCurrentState().onEntry(event, machine);
    });
    Map<StateEvent<S>, State<T, S>> row = states.get(toState);
    if (row == null || machine.getEndState().equals(row.get(machine.getImmediateEvent()))) {
      machine.stop();
    }
  }

  private final class Change {

    private final GenericStateMachine<T, S> machine;
    private final State<T, S> from;
    private final StateEvent<S> event;
    private final State<T, S> to;

    Change(GenericStateMachine<T, S> machine, StateEvent<S> event, State<T, S> to) {
      this.machine = machine;
      this.from = machine.getCurrentState();
      this.event = event;
      this.to = to;
    }

    void around(Runnable body) {
      machine.notifyStateMachineListener(false, from, event, to);
      body.run();
      machine.notifyStateMachineListener(true, from, event, to);
    }
  }
'''))
ref("h4-machine-transit",
  (TT, '''    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
''', '''    machine.changeState(event, toState);
'''), (G, '''  public State<T, S> getNoopState() {''', '''  public void changeState(StateEvent<S> event, State<T, S> toState) {
    getCurrentState().onExit(event, this);
    updateCurrentState(toState);
    getCurrentState().onEntry(event, this);
  }

  public State<T, S> getNoopState() {'''))

# --- the machine
ref("h4-var-everywhere",
  (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {''', '''    for (var entry : states.entrySet()) {
      var key = entry.getKey();
      for (var entry1 : entry.getValue().entrySet()) {'''),
  (G, "    State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);\n    if", "    var toState = states.get(markedState).get(markedEvent);\n    if"),
  (DS, "    EventMachinePair<T, S> inboundPair = this", "    var inboundPair = this"))
ref("h4-mark-done",
  (G, '''      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
    this.markedState = null;
    this.markedEvent = null;
    return this;
  }
''', '''      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
    return clearMarks();
  }

  private StateMachine<T, S> clearMarks() {
    this.markedEvent = null;
    this.markedState = null;
    return this;
  }

  private StateMachine<T, S> target(State<T, S> state) {
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    row().put(this.markedEvent, state);
    return clearMarks();
  }

  private Map<StateEvent<S>, State<T, S>> row() {
    return this.states.get(this.markedState);
  }
'''), (G, '''    assertNotReservedState(state);
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, state);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    assertNotReservedState(state);
    return target(state);
'''), (G, '''    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, this.noopState);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    return target(noopState);
'''))
ref("h4-check-helper",
  (G, '''    if (exists && this.initState == null) {
      throw new IllegalStateException("An initial State has to be defined first.");
    } else if (!exists && this.initState != null) {
      throw new IllegalStateException(
          "An initial State [" + this.initState.getName() + "] already exists.");
    }
  }
''', '''    check(!exists || this.initState != null, () -> "An initial State has to be defined first.");
    check(exists || this.initState == null,
        () -> "An initial State [" + this.initState.getName() + "] already exists.");
  }

  private static void check(boolean ok, java.util.function.Supplier<String> otherwise) {
    if (!ok) {
      throw new IllegalStateException(otherwise.get());
    }
  }
'''), (G, '''    if (exists && this.markedState == null) {
      throw new IllegalStateException("A state has to be marked to be configured using when().");
    } else if (!exists && this.markedState != null) {
      throw new IllegalStateException(
          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
    }
''', '''    check(!exists || this.markedState != null,
        () -> "A state has to be marked to be configured using when().");
    check(exists || this.markedState == null,
        () -> "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
'''), (G, '''    if (!states.containsKey(state)) {
      throw new IllegalStateException("State [" + state + "] has not been configured");
    }
    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''    check(states.containsKey(state), () -> String.format("State [%s] has not been configured", state));
    check(beginIn(state), () -> "The state machine has already been started");
'''))
ref("h4-fire-switch",
  (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    switch (phase()) {
      case NEW -> unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
      case OVER -> unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
      default -> eventProcessingStrategy.processEvent(stateEvent, this);
    }
  }

  private enum Phase {NEW, LIVE, OVER}

  private Phase phase() {
    if (!isStarted.get()) {
      return Phase.NEW;
    }
    return isEnded.get() ? Phase.OVER : Phase.LIVE;
'''))
ref("h4-fire-consumer",
  (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    receiver().accept(stateEvent, this);
  }

  private java.util.function.BiConsumer<StateEvent<S>, GenericStateMachine<T, S>> receiver() {
    if (!isStarted()) {
      return unexpectedFlowListener::onEventBeforeMachineStart;
    }
    if (isEnded()) {
      return unexpectedFlowListener::onEventAfterMachineEnd;
    }
    return eventProcessingStrategy::processEvent;
'''))
ref("h4-start-checks-split",
  (G, '''    if (beginIn(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();
      }
    } else {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''    begin(initState);
    enterInitial();
    if (isImmediateEnd(initState)) {
      stop();
    }
  }

  private void begin(State<T, S> state) {
    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
  }

  private void enterInitial() {
    notifyStateMachineListener(false, noState, immediateEvent, initState);
    initState.onEntry(immediateEvent, this);
    notifyStateMachineListener(true, noState, immediateEvent, initState);
  }

  private boolean isImmediateEnd(State<T, S> state) {
    return endState.equals(states.get(state).get(immediateEvent));
'''), (G, '''    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
  }

  /* The''', '''    begin(state);
  }

  /* The'''))
ref("h4-status-field-pair",
  (G, '''    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
''', '''    boolean fresh = !isStarted.get();
    if (fresh) {
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
    }
    return fresh;
'''), (G, '''    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''    boolean isFinal = endState.equals(state);
    if (isEnded.get()) {
      return;
    }
    isEnded.set(isFinal);
    currentState = state;
'''))
ref("h4-notify-sender",
  (G, '''      if (fromState == null) {
        fromState = this.noState;
      }
      if (toState == null) {
        toState = this.noState;
      }
      if (stateEvent == null) {
        stateEvent = this.immediateEvent;
      }
      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
''', '''      Notification<T, S> notification = isComplete ? listener::onStateChangeEnd : listener::onStateChangeBegin;
      notification.send(Optional.ofNullable(fromState).orElse(noState),
          Optional.ofNullable(stateEvent).orElse(immediateEvent),
          Optional.ofNullable(toState).orElse(noState));
'''), (G, '''  public StateEvent<S> getImmediateEvent() {''', '''  @FunctionalInterface
  private interface Notification<T, S> {

    void send(State<T, S> from, StateEvent<S> event, State<T, S> to);
  }

  public StateEvent<S> getImmediateEvent() {'''), (G, "import java.util.Map;", "import java.util.Map;\nimport java.util.Optional;"))
ref("h4-reserved-predicate",
  (G, '''    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {
      throw''', '''    if (isReserved(state.getName())) {
      throw'''), (G, '''  private void assertNotReservedStateEvent(''', '''  private static boolean isReserved(String name) {
    for (int i = 0; i < reservedStateNames.size(); i++) {
      if (reservedStateNames.get(i).equals(name)) {
        return true;
      }
    }
    return false;
  }

  private void assertNotReservedStateEvent('''))
ref("h4-validate-iterators",
  (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    this.states.forEach(this::checkRow);
'''), (G, '''  /**
   * This causes an immediate stop of''', '''  private void checkRow(State<T, S> state, Map<StateEvent<S>, State<T, S>> row) {
    Iterator<Entry<StateEvent<S>, State<T, S>>> cells = row.entrySet().iterator();
    while (cells.hasNext()) {
      Entry<StateEvent<S>, State<T, S>> cell = cells.next();
      if (cell.getValue() != null) {
        continue;
      }
      throw new IllegalStateException(
          String.format("State %s dose not transition when a %s event is received", state.getName(),
              cell.getKey().getName()));
    }
  }

  /**
   * This causes an immediate stop of'''), (G, "import java.util.Map;", "import java.util.Iterator;\nimport java.util.Map;"))
ref("h4-when-merge",
  (G, "    this.states.putIfAbsent(state, new HashMap<>());\n", "    this.states.computeIfAbsent(state, this::newRow);\n"),
  (G, '''  @Override
  public StateMachine<T, S> receives(''', '''  private Map<StateEvent<S>, State<T, S>> newRow(State<T, S> state) {
    return new HashMap<>();
  }

  @Override
  public StateMachine<T, S> receives('''))
ref("h4-tostring-format",
  (G, '''    return new StringJoiner(", ", GenericStateMachine.class.getSimpleName() + "[", "]")
        .add("currentState=" + currentState)
        .add("context=" + context)
        .toString();''', '''    return "%s[currentState=%s, context=%s]".formatted(GenericStateMachine.class.getSimpleName(), currentState, context);'''),
  (G, "import java.util.StringJoiner;\n", ""))
ref("h4-event-safe-copy-on-pair",
  (DS, '''    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
''', '''    inboundPair.setEventMachinePair(NamedStateEvent.safeCopy(stateEvent), stateMachine);
'''), (NE, '''  @Override
  public String getName() {''', '''  /* A client may set different payloads on the same event instance */
  public static <S> StateEvent<S> safeCopy(StateEvent<S> event) {
    return event instanceof NamedStateEvent ? new NamedStateEvent<>(event.getName(), event.getPayload()) : event;
  }

  @Override
  public String getName() {'''), (DS, "import com.webotech.statemachine.NamedStateEvent;\n", "import com.webotech.statemachine.NamedStateEvent;\n"))
ref("h4-drain-stream-generate",
  (DS, '''      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event''', '''      EventMachinePair<T, S> consumedPair;
      while ((consumedPair = eventQueue.poll()) != null) {
        StateEvent<S> event'''))
ref("h4-abstract-strategy",
  (M + "strategy/AbstractEventStrategy.java", None, '''package com.webotech.statemachine.strategy;

import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import java.util.Map;

abstract class AbstractEventStrategy<T, S> implements EventProcessingStrategy<T, S> {

  private final TransitionTask<T, S> transitionTask;
  private final UnexpectedFlowListener<T, S> unexpectedFlowListener;

  protected AbstractEventStrategy(TransitionTask<T, S> transitionTask,
      UnexpectedFlowListener<T, S> unexpectedFlowListener) {
    this.transitionTask = transitionTask;
    this.unexpectedFlowListener = unexpectedFlowListener;
  }

  @Override
  public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
    this.transitionTask.setStates(states);
  }

  @Override
  public UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
    return unexpectedFlowListener;
  }

  protected TransitionTask<T, S> transitionTask() {
    return transitionTask;
  }
}
'''),
  (DS, "public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S> {", "public class DefaultEventStrategy<T, S> extends AbstractEventStrategy<T, S> {"),
  (DS, "  private final TransitionTask<T, S> transitionTask;\n  private final UnexpectedFlowListener<T, S> unexpectedFlowListener;\n", ""),
  (DS, '''    this.executor = executor;
    this.unexpectedFlowListener = unexpectedFlowListener;
    this.eventMachinePairPool''', '''    super(new TransitionTask<>(unmappedEventHandler), unexpectedFlowListener);
    this.executor = executor;
    this.eventMachinePairPool'''),
  (DS, "    this.transitionTask = new TransitionTask<>(unmappedEventHandler);\n", ""),
  (DS, "    int queueSize = getEventQueueSize();\n", "    UnexpectedFlowListener<T, S> unexpectedFlowListener = getUnexpectedFlowListener();\n    int queueSize = getEventQueueSize();\n"),
  (DS, "            transitionTask.execute(event, machine);", "            transitionTask().execute(event, machine);"),
  (DS, '''  @Override
  public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
    this.transitionTask.setStates(states);
  }

''', ''), (DS, '''
  @Override
  public UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
    return unexpectedFlowListener;
  }
''', ''))
ref("h4-limit-class",
  (DS, '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
''', '''    Optional<String> problem = limit.problem(getEventQueueSize());
    if (problem.isPresent()) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(problem.get()));
      return;
    }
'''), (DS, "  private final int maxQueueSize;\n", "  private final Limit limit;\n"), (DS, "    this.maxQueueSize = maxQueueSize;\n", "    this.limit = new Limit(maxQueueSize);\n"),
  (DS, '''  @Override
  public int getEventQueueSize() {''', '''  private record Limit(int max) {

    Optional<String> problem(int size) {
      if (max <= 0 || size < max) {
        return Optional.empty();
      }
      return Optional.of("Queue size is maxed out at " + size + " - dropping event");
    }
  }

  @Override
  public int getEventQueueSize() {'''), (DS, "import java.util.Map;", "import java.util.Map;\nimport java.util.Optional;"))
ref("h4-drop-report-method",
  (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;''', '''      reject(stateEvent, stateMachine, "Queue size is maxed out at %s", queueSize);
      return;'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
''', '''      reject(stateEvent, stateMachine, "The event queue refused the event");
'''), (DS, '''  protected Queue<EventMachinePair<T, S>> getEventQueue() {''', '''  private void reject(StateEvent<S> event, StateMachine<T, S> machine, String why, Object... args) {
    String message = String.format(why, args) + " - dropping event";
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(),
        new IllegalStateException(message));
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''), (DS, "import com.webotech.statemachine.api.StateMachine;\n", "import com.webotech.statemachine.api.StateMachine;\n"))
ref("h4-pair-isfor",
  (DD, "anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "anyMatch(en -> en.isFor(stateEvent))"),
  (EMP, '''  StateEvent<S> getStateEvent() {''', '''  boolean isFor(StateEvent<S> event) {
    return event.equals(stateEvent);
  }

  StateEvent<S> getStateEvent() {'''))
ref("h4-default-has-duplicate",
  (DD, '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {''', '''    if (defaultStrategy.isQueued(stateEvent)) {'''),
  (DS, '''  protected Queue<EventMachinePair<T, S>> getEventQueue() {''', '''  boolean isQueued(StateEvent<S> event) {
    for (EventMachinePair<T, S> pair : eventQueue) {
      if (event.equals(pair.getStateEvent())) {
        return true;
      }
    }
    return false;
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("h4-dd-inherits",
  (DD, '''  public DropDuplicateEventStrategy(DefaultEventStrategy<T, S> defaultEventStrategy) {
    this.defaultStrategy = defaultEventStrategy;
  }''', '''  public DropDuplicateEventStrategy(DefaultEventStrategy<T, S> defaultEventStrategy) {
    this.defaultStrategy = java.util.Objects.requireNonNull(defaultEventStrategy);
  }'''),
  (DD, '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
''', '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    boolean isNew = eventQueue.stream().map(EventMachinePair::getStateEvent)
        .noneMatch(stateEvent::equals);
    if (isNew) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    } else if (logger.isInfoEnabled()) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    }
'''))
ref("h4-config-suppliers",
  (F, '''      if (executor == null) {
        return Executors.newSingleThreadExecutor(
            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
      }
      return executor;
''', '''      return or(executor, this::defaultExecutor);
'''), (F, '''      if (eventQueue == null) {
        return new ConcurrentLinkedQueue<>();
      }
      return eventQueue;
    }
''', '''      return or(eventQueue, ConcurrentLinkedQueue::new);
    }

    private ExecutorService defaultExecutor() {
      String name = or(threadName, () -> "state-machine");
      return Executors.newSingleThreadExecutor(Threads.newNamedDaemonThreadFactory(name,
          (thread, error) -> logger.error(LOG_UNHANDLED_EXCEPTION, thread.getName(), error)));
    }

    private static <V> V or(V value, Supplier<? extends V> fallback) {
      return value == null ? fallback.get() : value;
    }
'''), (F, "import java.util.function.BiConsumer;", "import java.util.function.BiConsumer;\nimport java.util.function.Supplier;"))
ref("h4-config-instance-handler",
  (F, '''        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
      }
      return unmappedEventHandler;
    }
''', '''        unmappedEventHandler = this::logUnmapped;
      }
      return unmappedEventHandler;
    }

    private void logUnmapped(StateEvent<S> event, StateMachine<T, S> machine) {
      String eventName = event.getName();
      String stateName = machine.getCurrentState().getName();
      logger.info(LOG_EVENT_NOT_MAPPED, eventName, stateName);
    }
'''))
ref("h4-pool-computed",
  (POOL, '''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', '''    return Objects.requireNonNullElseGet(pool.poll(), EventMachinePair::new);
'''), (POOL, '''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    Optional.ofNullable(eventMachinePair).ifPresent(this::recycle);
  }

  private void recycle(EventMachinePair<T, S> pair) {
    pair.setEventMachinePair(null, null);
    pool.add(pair);
'''), (POOL, "import java.util.Queue;", "import java.util.Objects;\nimport java.util.Optional;\nimport java.util.Queue;"))

# --- actions, listeners
ref("h4-action-list",
  (M + "ActionList.java", None, '''package com.webotech.statemachine;

import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.List;

final class ActionList<T, S> implements StateAction<T, S> {

  private final List<StateAction<T, S>> actions = new ArrayList<>();

  void addAll(StateAction<T, S>[] added) {
    for (StateAction<T, S> action : added) {
      if (action == null) {
        continue;
      }
      actions.add(action);
    }
  }

  @Override
  public void execute(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    for (StateAction<T, S> action : actions) {
      action.execute(stateEvent, stateMachine);
    }
  }
}
'''),
  (NS, '''  private final List<StateAction<T, S>> entryActions;
  private final List<StateAction<T, S>> exitActions;
''', '''  private final ActionList<T, S> entryActions = new ActionList<>();
  private final ActionList<T, S> exitActions = new ActionList<>();
'''), (NS, '''    this.entryActions = new ArrayList<>();
    this.exitActions = new ArrayList<>();
''', ''), (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    entryActions.execute(stateEvent, stateMachine);"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    exitActions.execute(stateEvent, stateMachine);"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    entryActions.addAll(actions);"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    exitActions.addAll(actions);"))
ref("h4-append-mapmulti",
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    append(entryActions, actions);"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", '''    append(exitActions, actions);
  }

  private static <A> void append(List<A> target, A[] added) {
    target.addAll(Arrays.stream(added).filter(Objects::nonNull).toList());'''),
  (NS, "import java.util.ArrayList;", "import java.util.ArrayList;\nimport java.util.Arrays;"))
ref("h4-run-all",
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    runAll(entryActions.iterator(), stateEvent, stateMachine);"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));", '''    runAll(exitActions.iterator(), stateEvent, stateMachine);
  }

  private void runAll(java.util.Iterator<StateAction<T, S>> it, StateEvent<S> stateEvent,
      StateMachine<T, S> stateMachine) {
    while (it.hasNext()) {
      it.next().execute(stateEvent, stateMachine);
    }'''))
BEGIN = '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
'''
END = BEGIN.replace("Begin", "End")
ref("h4-mc-failures-class",
  (MC, BEGIN, '''    Failures failures = new Failures();
    consumers.values().forEach(
        l -> failures.collect(() -> l.onStateChangeBegin(fromState, event, toState)));
    failures.rethrow();
'''), (MC, END, '''    Failures failures = new Failures();
    consumers.values().forEach(
        l -> failures.collect(() -> l.onStateChangeEnd(fromState, event, toState)));
    failures.rethrow();
'''), (MC, '''  private static RuntimeException firstFailure(RuntimeException first, RuntimeException next) {
    if (first == null) {
      return next;
    }
    if (first != next) {
      first.addSuppressed(next);
    }
    return first;
  }
''', '''  private static final class Failures {

    private RuntimeException first;

    void collect(Runnable call) {
      try {
        call.run();
      } catch (RuntimeException e) {
        if (first == null) {
          first = e;
        } else if (first != e) {
          first.addSuppressed(e);
        }
      }
    }

    void rethrow() {
      if (first != null) {
        throw first;
      }
    }
  }
'''))
ref("h4-mc-switch-side",
  (MC, BEGIN, '''    each(l -> l.onStateChangeBegin(fromState, event, toState));
'''), (MC, END, '''    each(l -> l.onStateChangeEnd(fromState, event, toState));
'''), (MC, '''  private static RuntimeException firstFailure(''', '''  private void each(java.util.function.Consumer<StateMachineListener<T, S>> call) {
    RuntimeException failure = null;
    java.util.Iterator<StateMachineListener<T, S>> it = consumers.keySet().iterator();
    while (it.hasNext()) {
      StateMachineListener<T, S> next = it.next();
      try {
        call.accept(next);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure == null) {
      return;
    }
    throw failure;
  }

  private static RuntimeException firstFailure('''))
ref("h4-ll-args",
  (LL, '''    if (this.name != null && !this.name.isEmpty()) {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),
            newState.getName());
      }
    } else {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(),
            newState.getName());
      }
    }
''', '''    boolean isNamed = this.name != null && !this.name.isEmpty();
    if (isComplete) {
      logEnd(isNamed, newState);
    } else {
      logBegin(isNamed, oldState, event, newState);
    }
  }

  private void logEnd(boolean isNamed, State<T, S> newState) {
    String state = newState.getName();
    if (isNamed) {
      logger.info(LOG_TRANSITIONED_NAMED, name, state);
      return;
    }
    logger.info(LOG_TRANSITIONED, state);
  }

  private void logBegin(boolean isNamed, State<T, S> oldState, StateEvent<S> event,
      State<T, S> newState) {
    if (isNamed) {
      logger.info(LOG_BEGIN_TRANSITION_NAMED, name, oldState.getName(), event.getName(),
          newState.getName());
      return;
    }
    logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(), newState.getName());
'''))
ref("h4-ll-optional-name",
  (LL, "  private final String name;\n", "  private final java.util.Optional<String> name;\n"),
  (LL, "    this.name = name;\n", "    this.name = java.util.Optional.ofNullable(name).filter(n -> !n.isEmpty());\n"),
  (LL, "    if (this.name != null && !this.name.isEmpty()) {", "    if (this.name.isPresent()) {"),
  (LL, "logger.info(LOG_TRANSITIONED_NAMED, this.name, newState", "logger.info(LOG_TRANSITIONED_NAMED, this.name.get(), newState"),
  (LL, "logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState", "logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name.get(), oldState"))
ref("h4-th-function",
  (TH, '''      Thread thread = new Thread(runnable);
      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));
      thread.setDaemon(true);
      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);
      return thread;
''', '''      return configured(new Thread(runnable, nextName()));
    }

    private String nextName() {
      return DASH_FORMAT.formatted(threadName, threadNumber.getAndIncrement());
    }

    private Thread configured(Thread thread) {
      thread.setUncaughtExceptionHandler(uncaughtExceptionHandler);
      thread.setDaemon(true);
      return thread;
'''))

# --- the application service
ref("h4-as-constructor-split",
  (AS, '''    EventProcessingStrategyFactory.Config<C, Void> strategyConfig = new EventProcessingStrategyFactory.Config<C, Void>()
        .withThreadName(appContext.getAppThreadName());
    appStateMachine = new GenericStateMachine.Builder<C, Void>().setContext(appContext)
        .setEventProcessingStrategy(
            EventProcessingStrategyFactory.createDefaultStrategy(strategyConfig)).build();
    this.appContext = appContext;
    this.isExitOnStop = isExitOnStop;
    configureAppStateMachine();
  }
''', '''    this.appContext = appContext;
    this.isExitOnStop = isExitOnStop;
    this.appStateMachine = newStateMachine(appContext);
    configureAppStateMachine();
  }

  private static <C extends AppContext<C>> StateMachine<C, Void> newStateMachine(C context) {
    GenericStateMachine.Builder<C, Void> builder = new GenericStateMachine.Builder<>();
    builder.setContext(context);
    EventProcessingStrategyFactory.Config<C, Void> config = new EventProcessingStrategyFactory.Config<>();
    config.withThreadName(context.getAppThreadName());
    builder.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(config));
    return builder.build();
  }
'''))
ref("h4-as-collections-reverse",
  (AS, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          List<Subsystem<C>> lastFirst = new java.util.ArrayList<>(appContext.getSubsystems());
          java.util.Collections.reverse(lastFirst);
          lastFirst.forEach(s -> s.stop(appContext));
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("h4-as-recursive-stop",
  (AS, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          stopAll(appContext.getSubsystems());
'''), (AS, '''  @Override
  public C getAppContext() {''', '''  private void stopAll(List<Subsystem<C>> subsystems) {
    int i = subsystems.size() - 1;
    while (i >= 0) {
      subsystems.get(i).stop(appContext);
      i--;
    }
  }

  @Override
  public C getAppContext() {'''), (AS, "import java.util.ListIterator;\n", ""))
ref("h4-as-inner-actions",
  (AS, '''        new HandleExceptionAction<>((ev, sm) -> {
          logger.info("Starting {} with args {}", appName, appContext.getInitArgs());
          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
        }, exceptionHandler));
''', '''        new HandleExceptionAction<>(new StartSubsystems(appName), exceptionHandler));
'''), (AS, '''  @Override
  public C getAppContext() {''', '''  private final class StartSubsystems implements com.webotech.statemachine.api.StateAction<C, Void> {

    private final String name;

    StartSubsystems(String name) {
      this.name = name;
    }

    @Override
    public void execute(StateEvent<Void> event, StateMachine<C, Void> machine) {
      logger.info("Starting {} with args {}", name, appContext.getInitArgs());
      Iterator<Subsystem<C>> toStart = appContext.getSubsystems().iterator();
      while (toStart.hasNext()) {
        toStart.next().start(appContext);
      }
      machine.fire(LifecycleStateMachineUtil.evtComplete);
    }
  }

  @Override
  public C getAppContext() {'''), (AS, "import java.util.ListIterator;\n", "import java.util.ListIterator;\nimport java.util.Iterator;\n"))
ref("h4-as-switch-stop",
  (AS, '''    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    boolean isStopped = LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState);
    if (isStopped && isExitOnStop) {
      return;
    }
    if (!isStopped && !LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)) {
      throw new IllegalStateException(
          String.format("Cannot stop the app when it's in [%s] state", currentAppState));
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
'''))
ref("h4-as-start-guards",
  (AS, '''    if (!appStateMachine.isStarted()) {
      // start the state machine and the app then wait indefinitely
      appStateMachine.start();
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
      try {
        appLatch.await();
      } catch (InterruptedException e) {
        logger.error("Main latch was interrupted", e);
        Thread.currentThread().interrupt();
        if (!appStateMachine.isEnded()) {
          stop();
        }
      }
    } else if (!isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      //re-start the app
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    } else {
      throw new IllegalStateException(
          "Cannot start the app when it's in [" + currentAppState + "] state");
    }
  }
''', '''    boolean isFirst = !appStateMachine.isStarted();
    if (isFirst) {
      appStateMachine.start();
    } else {
      assertRestartable(currentAppState);
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    if (isFirst) {
      awaitEnd();
    }
  }

  private void assertRestartable(String state) {
    if (isExitOnStop || !LifecycleStateMachineUtil.STATE_STOPPED.equals(state)) {
      throw new IllegalStateException("Cannot start the app when it's in [" + state + "] state");
    }
  }

  private void awaitEnd() {
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      Thread.currentThread().interrupt();
      if (!appStateMachine.isEnded()) {
        stop();
      }
    }
  }
'''))
ref("h4-as-error-handler-calls-error",
  (AS, '''    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {
      logger.error("Error while {} is in [{}] state", appName, sm.getCurrentState(), e);
      appStateMachine.fire(LifecycleStateMachineUtil.evtError);
    };
''', '''    ExceptionHandler<C, Void> exceptionHandler = new ExceptionHandler<>() {
      @Override
      public void onException(StateEvent<Void> evt, StateMachine<C, Void> sm, Exception e) {
        State<C, Void> failedIn = sm.getCurrentState();
        logger.error("Error while {} is in [{}] state", appName, failedIn, e);
        sm.fire(LifecycleStateMachineUtil.evtError);
      }
    };
'''))
ref("h4-lu-transition-list",
  (LU, '''    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);
    stateMachine.when(stopped).receives(evtStop).itEnds();
''', '''    java.util.function.BiConsumer<StateEvent<Void>, java.util.Map.Entry<State<T, Void>, State<T, Void>>> on =
        (event, leg) -> stateMachine.when(leg.getKey()).receives(event).itTransitionsTo(leg.getValue());
    on.accept(evtComplete, java.util.Map.entry(starting, started));
    on.accept(evtStop, java.util.Map.entry(started, stopping));
    on.accept(evtComplete, java.util.Map.entry(stopping, stopped));
    on.accept(evtStart, java.util.Map.entry(stopped, starting));
    for (State<T, Void> failing : java.util.List.of(starting, started, stopping)) {
      on.accept(evtError, java.util.Map.entry(failing, stopped));
    }
    stateMachine.when(stopped).receives(evtStop).itEnds();
'''))
ref("h4-lu-enum-factory",
  (LU, '''    NamedState<T, S> state = new NamedState<>(name);
    state.appendEntryActions(entryActions);
    return state;
''', '''    State<T, S> state = new NamedState<>(name);
    for (StateAction<T, S> action : entryActions) {
      state.appendEntryActions(action);
    }
    return state;
'''))
ref("h4-ac-settings-object",
  (AC, "  private final AtomicReference<String> appThreadNameRef;\n  private final AtomicReference<List<Subsystem<C>>> subsystemsRef;\n", "  private final AtomicReference<Settings<C>> settings;\n"),
  (AC, '''    this.appThreadNameRef = new AtomicReference<>("app");
''', ''), (AC, "    this.subsystemsRef = new AtomicReference<>(List.of());\n", '''    this.settings = new AtomicReference<>(new Settings<>("app", List.of()));
'''),
  (AC, "    subsystemsRef.set(subsystems);\n", "    settings.set(new Settings<>(settings.get().threadName, subsystems));\n"),
  (AC, "    appThreadNameRef.set(appThreadName);\n", "    settings.set(new Settings<>(appThreadName, settings.get().subsystems));\n"),
  (AC, "    return subsystemsRef.get();\n", "    return settings.get().subsystems;\n"),
  (AC, '''    return appThreadNameRef.get();
  }
''', '''    return settings.get().threadName;
  }

  private static final class Settings<C extends AppContext<?>> {

    private final String threadName;
    private final List<Subsystem<C>> subsystems;

    Settings(String threadName, List<Subsystem<C>> subsystems) {
      this.threadName = threadName;
      this.subsystems = subsystems;
    }
  }
'''))
ref("h4-he-run-safely",
  (HE, '''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    failureOf(stateEvent, stateMachine).ifPresent(
        e -> exceptionHandler.onException(stateEvent, stateMachine, e));
  }

  private java.util.Optional<Exception> failureOf(StateEvent<S> stateEvent,
      StateMachine<T, S> stateMachine) {
    try {
      stateAction.execute(stateEvent, stateMachine);
      return java.util.Optional.empty();
    } catch (Exception e) {
      return java.util.Optional.of(e);
    }
'''))
ref("h4-du-describe",
  (DU, '''    logger.error("Unhandled exception while processing event {} while in state {} on thread [{}]",
        stateEvent, stateMachine.getCurrentState(), thread.getName(), e);
''', '''    Object[] args = {stateEvent, stateMachine.getCurrentState(), thread.getName(), e};
    logger.error("Unhandled exception while processing event {} while in state {} on thread [{}]", args);
'''))
ref("h4-interface-defaults",
  (M + "api/StateMachine.java", "  boolean isEnded();\n", '''  boolean isEnded();

  /**
   * @return true if events are being processed
   */
  default boolean isRunning() {
    return isStarted() && !isEnded();
  }
'''), (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    if (isRunning()) {
      eventProcessingStrategy.processEvent(stateEvent, this);
    } else if (isStarted()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    }
'''))
