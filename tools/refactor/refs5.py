"""A fifth set: Java 17 idioms - enums, records, switch expressions, sealed types, text, streams."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
R = []
def ref(name, *edits): R.append((name, edits))

FIRE = '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
'''
ref("i5-fire-switch-expression",
  (G, FIRE, '''    Reception reception = !isStarted() ? Reception.EARLY : isEnded() ? Reception.LATE : Reception.IN_TIME;
    reception.handle(this, stateEvent);
  }

  private enum Reception {
    EARLY {
      @Override
      <T, S> void handle(GenericStateMachine<T, S> machine, StateEvent<S> event) {
        machine.unexpectedFlowListener.onEventBeforeMachineStart(event, machine);
      }
    }, LATE {
      @Override
      <T, S> void handle(GenericStateMachine<T, S> machine, StateEvent<S> event) {
        machine.unexpectedFlowListener.onEventAfterMachineEnd(event, machine);
      }
    }, IN_TIME {
      @Override
      <T, S> void handle(GenericStateMachine<T, S> machine, StateEvent<S> event) {
        machine.eventProcessingStrategy.processEvent(event, machine);
      }
    };

    abstract <T, S> void handle(GenericStateMachine<T, S> machine, StateEvent<S> event);
'''))
ref("i5-outcome-switch",
  (TT, EXEC, '''    State<T, S> fromState = machine.getCurrentState();
    State<T, S> toState = states.get(fromState).get(event);
    switch (outcome(machine, toState)) {
      case UNMAPPED:
        unmappedEventHandler.accept(event, machine);
        break;
      case STAY:
        machine.notifyStateMachineListener(false, fromState, event, toState);
        machine.notifyStateMachineListener(true, fromState, event, toState);
        break;
      default:
        transition(event, machine, fromState, toState);
    }
  }

  private enum Outcome {UNMAPPED, STAY, MOVE}

  private Outcome outcome(GenericStateMachine<T, S> machine, State<T, S> toState) {
    if (toState == null) {
      return Outcome.UNMAPPED;
    }
    return machine.getNoopState().equals(toState) ? Outcome.STAY : Outcome.MOVE;
  }

  private void transition(StateEvent<S> event, GenericStateMachine<T, S> machine,
      State<T, S> fromState, State<T, S> toState) {
    machine.notifyStateMachineListener(false, fromState, event, toState);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
    Map<StateEvent<S>, State<T, S>> next = states.get(toState);
    if (next == null || machine.getEndState().equals(next.get(machine.getImmediateEvent()))) {
      machine.stop();
    }
  }
'''))
ref("i5-sealed-outcome",
  (TT, EXEC, '''    Outcome<T, S> outcome = decide(event, machine);
    if (outcome instanceof Unmapped) {
      unmappedEventHandler.accept(event, machine);
    } else if (outcome instanceof Stay<T, S> stay) {
      machine.notifyStateMachineListener(false, stay.in(), event, machine.getNoopState());
      machine.notifyStateMachineListener(true, stay.in(), event, machine.getNoopState());
    } else if (outcome instanceof Move<T, S> move) {
      machine.notifyStateMachineListener(false, move.from(), event, move.to());
      machine.getCurrentState().onExit(event, machine);
      machine.updateCurrentState(move.to());
      machine.getCurrentState().onEntry(event, machine);
      machine.notifyStateMachineListener(true, move.from(), event, move.to());
      Map<StateEvent<S>, State<T, S>> next = states.get(move.to());
      if (next == null || machine.getEndState().equals(next.get(machine.getImmediateEvent()))) {
        machine.stop();
      }
    }
  }

  private Outcome<T, S> decide(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    State<T, S> from = machine.getCurrentState();
    State<T, S> to = states.get(from).get(event);
    if (to == null) {
      return new Unmapped<>();
    }
    return to.equals(machine.getNoopState()) ? new Stay<>(from) : new Move<>(from, to);
  }

  private sealed interface Outcome<T, S> permits Unmapped, Stay, Move {

  }

  private record Unmapped<T, S>() implements Outcome<T, S> {

  }

  private record Stay<T, S>(State<T, S> in) implements Outcome<T, S> {

  }

  private record Move<T, S>(State<T, S> from, State<T, S> to) implements Outcome<T, S> {

  }
'''))
ref("i5-message-record",
  (DS, '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
''', '''    Admission admission = admission(getEventQueueSize());
    if (!admission.granted()) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(admission.reason()));
      return;
    }
'''), (DS, '''  @Override
  public int getEventQueueSize() {''', '''  private record Admission(boolean granted, String reason) {

  }

  private Admission admission(int queueSize) {
    boolean isFull = maxQueueSize > 0 && queueSize >= maxQueueSize;
    return new Admission(!isFull,
        isFull ? "Queue size is maxed out at %s - dropping event".formatted(queueSize) : null);
  }

  @Override
  public int getEventQueueSize() {'''))
ref("i5-pair-record-snapshot",
  (DS, '''        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
''', '''        Work<T, S> work = new Work<>(consumedPair.getStateEvent(), consumedPair.getStateMachine());
        StateEvent<S> event = work.event();
        GenericStateMachine<T, S> machine = work.machine();
'''), (DS, '''  @Override
  public int getEventQueueSize() {''', '''  private record Work<T, S>(StateEvent<S> event, GenericStateMachine<T, S> machine) {

  }

  @Override
  public int getEventQueueSize() {'''))
ref("i5-log-template-enum",
  (LL, '''    if (this.name != null && !this.name.isEmpty()) {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),
            newState.getName());
      }
    } else {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(),
            newState.getName());
      }
    }
''', '''    switch (kind(isComplete)) {
      case NAMED_END -> logger.info(LOG_TRANSITIONED_NAMED, name, newState.getName());
      case NAMED_BEGIN -> logger.info(LOG_BEGIN_TRANSITION_NAMED, name, oldState.getName(), event.getName(),
          newState.getName());
      case END -> logger.info(LOG_TRANSITIONED, newState.getName());
      case BEGIN -> logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(), newState.getName());
    }
  }

  private enum Kind {NAMED_BEGIN, NAMED_END, BEGIN, END}

  private Kind kind(boolean isComplete) {
    if (name == null || name.isBlank() && name.isEmpty()) {
      return isComplete ? Kind.END : Kind.BEGIN;
    }
    return isComplete ? Kind.NAMED_END : Kind.NAMED_BEGIN;
'''))
ref("i5-lifecycle-switch",
  (AS, '''    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    boolean fires = switch (String.valueOf(currentAppState)) {
      case LifecycleStateMachineUtil.STATE_STARTED -> true;
      case LifecycleStateMachineUtil.STATE_STOPPED -> !isExitOnStop;
      default -> throw new IllegalStateException(
          "Cannot stop the app when it's in [" + currentAppState + "] state");
    };
    if (fires) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    }
'''))
ref("i5-lifecycle-enum-valueof",
  (AS, '''    } else if (!isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      //re-start the app
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    } else {
      throw''', '''    } else if (mode().canRestartFrom(currentAppState)) {
      //re-start the app
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    } else {
      throw'''), (AS, '''  @Override
  public C getAppContext() {''', '''  private enum Mode {
    ONE_SHOT, RESTARTABLE;

    boolean canRestartFrom(String state) {
      return this == RESTARTABLE && LifecycleStateMachineUtil.STATE_STOPPED.equals(state);
    }
  }

  private Mode mode() {
    return isExitOnStop ? Mode.ONE_SHOT : Mode.RESTARTABLE;
  }

  @Override
  public C getAppContext() {'''))
ref("i5-mode-field",
  (AS, "  private final boolean isExitOnStop;\n", "  private final Mode mode;\n\n  private enum Mode {ONE_SHOT, RESTARTABLE}\n"),
  (AS, "    this.isExitOnStop = isExitOnStop;\n", "    this.mode = isExitOnStop ? Mode.ONE_SHOT : Mode.RESTARTABLE;\n"),
  (AS, "      if (isExitOnStop) {\n", "      if (mode == Mode.ONE_SHOT) {\n"),
  (AS, "    } else if (!isExitOnStop && Life", "    } else if (mode == Mode.RESTARTABLE && Life"),
  (AS, "        || !isExitOnStop && Life", "        || mode == Mode.RESTARTABLE && Life"),
  (AS, "      if (!(isExitOnStop && Life", "      if (!(mode == Mode.ONE_SHOT && Life"))
ref("i5-mode-switch",
  (AS, "  private final boolean isExitOnStop;\n", "  private final Mode mode;\n\n  private enum Mode {ONE_SHOT, RESTARTABLE}\n"),
  (AS, "    this.isExitOnStop = isExitOnStop;\n", "    this.mode = isExitOnStop ? Mode.ONE_SHOT : Mode.RESTARTABLE;\n"),
  (AS, '''      if (isExitOnStop) {
        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
        appLatch.countDown();
      }
''', '''      switch (mode) {
        case ONE_SHOT -> {
          appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
          appLatch.countDown();
        }
        case RESTARTABLE -> {
        }
      }
'''),
  (AS, "    } else if (!isExitOnStop && Life", "    } else if (mode == Mode.RESTARTABLE && Life"),
  (AS, "        || !isExitOnStop && Life", "        || mode == Mode.RESTARTABLE && Life"),
  (AS, "      if (!(isExitOnStop && Life", "      if (!(mode == Mode.ONE_SHOT && Life"))
ref("i5-lu-enum",
  (LU, '''  @SafeVarargs
  public static <T> State<T, Void> newUnitialisedState(StateAction<T, Void>... entryActions) {
    return newState(STATE_UNINITIALISED, entryActions);
  }
''', '''  private enum Phase {
    UNINITIALISED(STATE_UNINITIALISED), STARTING(STATE_STARTING), STARTED(STATE_STARTED),
    STOPPING(STATE_STOPPING), STOPPED(STATE_STOPPED);

    private final String stateName;

    Phase(String stateName) {
      this.stateName = stateName;
    }

    <T> State<T, Void> newState(StateAction<T, Void>[] actions) {
      State<T, Void> state = new NamedState<>(stateName);
      state.appendEntryActions(actions);
      return state;
    }
  }

  @SafeVarargs
  public static <T> State<T, Void> newUnitialisedState(StateAction<T, Void>... entryActions) {
    return Phase.UNINITIALISED.newState(entryActions);
  }
'''), (LU, "    return newState(STATE_STARTING, entryActions);", "    return Phase.STARTING.newState(entryActions);"),
  (LU, "    return newState(STATE_STARTED, entryActions);", "    return Phase.STARTED.newState(entryActions);"),
  (LU, "    return newState(STATE_STOPPING, entryActions);", "    return Phase.STOPPING.newState(entryActions);"),
  (LU, "    return newState(STATE_STOPPED, entryActions);", "    return Phase.STOPPED.newState(entryActions);"),
  (LU, '''  @SafeVarargs
  private static <T, S> State<T, S> newState(String name, StateAction<T, S>... entryActions) {
    NamedState<T, S> state = new NamedState<>(name);
    state.appendEntryActions(entryActions);
    return state;
  }
''', ""))
ref("i5-lu-legs-record",
  (LU, '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);
    stateMachine.when(stopped).receives(evtStop).itEnds();
  }
''', '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    List<Leg<T>> legs = List.of(
        new Leg<>(starting, evtComplete, started),
        new Leg<>(starting, evtError, stopped),
        new Leg<>(started, evtStop, stopping),
        new Leg<>(started, evtError, stopped),
        new Leg<>(stopping, evtComplete, stopped),
        new Leg<>(stopping, evtError, stopped),
        new Leg<>(stopped, evtStart, starting));
    for (Leg<T> leg : legs) {
      stateMachine.when(leg.from()).receives(leg.on()).itTransitionsTo(leg.to());
    }
    stateMachine.when(stopped).receives(evtStop).itEnds();
  }

  private record Leg<T>(State<T, Void> from, StateEvent<Void> on, State<T, Void> to) {

  }
'''), (LU, "import com.webotech.statemachine.api.StateMachine;", "import com.webotech.statemachine.api.StateMachine;\nimport java.util.List;"))
ref("i5-mark-record",
  (G, "  private State<T, S> markedState;\n  private StateEvent<S> markedEvent;\n", "  private Mark<T, S> mark = new Mark<>(null, null);\n"),
  (G, "    this.markedState = state;\n    return this;", "    this.mark = new Mark<>(state, mark.event());\n    return this;"),
  (G, "    this.markedEvent = stateEvent;\n    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);", "    this.mark = new Mark<>(mark.state(), stateEvent);\n    this.states.get(mark.state()).putIfAbsent(stateEvent, null);"),
  (G, '''    if (this.markedEvent == null) {
      assertNoMappingsExistAtEnd();
      this.states.get(this.markedState).put(immediateEvent, this.endState);
    } else {
      assertEventNotMapped();
      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    if (mark.event() == null) {
      assertNoMappingsExistAtEnd();
      this.states.get(mark.state()).put(immediateEvent, this.endState);
    } else {
      assertEventNotMapped();
      this.states.get(mark.state()).put(mark.event(), this.endState);
    }
    this.mark = new Mark<>(null, null);
    return this;
'''), (G, '''    this.states.get(this.markedState).put(this.markedEvent, state);
    this.markedState = null;
    this.markedEvent = null;
''', '''    this.states.get(mark.state()).put(mark.event(), state);
    this.mark = new Mark<>(null, null);
'''), (G, '''    this.states.get(this.markedState).put(this.markedEvent, this.noopState);
    this.markedState = null;
    this.markedEvent = null;
''', '''    this.states.get(mark.state()).put(mark.event(), this.noopState);
    this.mark = new Mark<>(null, null);
'''), (G, '''    if (this.markedEvent == null) {
      throw new IllegalStateException("A StateEvent has to be defined first using receives().");
    }
    State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
    if (toState != null) {
      throw new IllegalStateException(
          "State [" + this.markedState.getName() + "] already transitions to State [" + toState
              + "] when StateEvent [" + this.markedEvent.getName() + "] is received.");
    }
''', '''    if (mark.event() == null) {
      throw new IllegalStateException("A StateEvent has to be defined first using receives().");
    }
    State<T, S> toState = this.states.get(mark.state()).get(mark.event());
    if (toState != null) {
      throw new IllegalStateException(
          "State [" + mark.state().getName() + "] already transitions to State [" + toState
              + "] when StateEvent [" + mark.event().getName() + "] is received.");
    }
'''), (G, '''    if (!this.states.get(this.markedState).isEmpty()) {
      throw new IllegalStateException(
          "It is not possible to immediately end in State [" + this.markedState.getName()
              + "] since transitions for the State exist: " + this.states.get(this.markedState)
              + ".");
    }
''', '''    if (!this.states.get(mark.state()).isEmpty()) {
      throw new IllegalStateException(
          "It is not possible to immediately end in State [" + mark.state().getName()
              + "] since transitions for the State exist: " + this.states.get(mark.state())
              + ".");
    }
'''), (G, '''    if (exists && this.markedState == null) {
      throw new IllegalStateException("A state has to be marked to be configured using when().");
    } else if (!exists && this.markedState != null) {
      throw new IllegalStateException(
          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
    }
  }
''', '''    if (exists && mark.state() == null) {
      throw new IllegalStateException("A state has to be marked to be configured using when().");
    } else if (!exists && mark.state() != null) {
      throw new IllegalStateException(
          "A StateEvent for State [" + mark.state().getName() + "] has to be defined first.");
    }
  }

  private record Mark<T, S>(State<T, S> state, StateEvent<S> event) {

  }
'''))
ref("i5-stream-forall-start",
  (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    states.forEach((state, row) -> row.forEach((event, target) -> {
      if (target == null) {
        throw new IllegalStateException("State %s dose not transition when a %s event is received"
            .formatted(state.getName(), event.getName()));
      }
    }));
'''))
ref("i5-subsystem-intstream",
  (AS, '''          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
''', '''          List<Subsystem<C>> toStart = appContext.getSubsystems();
          java.util.stream.IntStream.range(0, toStart.size()).forEach(i -> toStart.get(i).start(appContext));
'''), (AS, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          List<Subsystem<C>> toStop = appContext.getSubsystems();
          int last = toStop.size() - 1;
          java.util.stream.IntStream.rangeClosed(0, last).map(i -> last - i).mapToObj(toStop::get)
              .forEach(s -> s.stop(appContext));
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("i5-notify-type-enum",
  (G, '''      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
''', '''      switch (Moment.of(isComplete)) {
        case BEGIN:
          listener.onStateChangeBegin(fromState, stateEvent, toState);
          break;
        case END:
          listener.onStateChangeEnd(fromState, stateEvent, toState);
          break;
      }
'''), (G, '''  public StateEvent<S> getImmediateEvent() {''', '''  private enum Moment {
    BEGIN, END;

    static Moment of(boolean isComplete) {
      return values()[isComplete ? 1 : 0];
    }
  }

  public StateEvent<S> getImmediateEvent() {'''))
ref("i5-reserved-enum",
  (G, '''    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {
      throw''', '''    if (Reserved.contains(state.getName())) {
      throw'''), (G, '''  private void assertNotReservedStateEvent(''', '''  private enum Reserved {
    END(RESERVED_STATE_NAME_END), NONE(RESERVED_STATE_NAME_UNINITIALISED), NOOP(RESERVED_STATE_NAME_NOOP);

    private final String stateName;

    Reserved(String stateName) {
      this.stateName = stateName;
    }

    static boolean contains(String name) {
      for (Reserved reserved : values()) {
        if (reserved.stateName.equals(name)) {
          return true;
        }
      }
      return false;
    }
  }

  private void assertNotReservedStateEvent('''))
ref("i5-config-defaults-enum",
  (F, "  private static final Config basicConfig = new Config<>();\n", "  private static final Config basicConfig = Defaults.INSTANCE.config;\n\n  private enum Defaults {\n    INSTANCE;\n    private final Config config = new Config<>();\n  }\n"))
ref("i5-thread-record-factory",
  (TH, '''  private static class NamedDaemonThreadFactory implements ThreadFactory {

    private static final String DASH_FORMAT = "%s-%s";
    private static final AtomicInteger threadNumber = new AtomicInteger();
    private final String threadName;
    private final UncaughtExceptionHandler uncaughtExceptionHandler;

    public NamedDaemonThreadFactory(String threadName,
        UncaughtExceptionHandler uncaughtExceptionHandler) {
      this.threadName = threadName;
      this.uncaughtExceptionHandler = uncaughtExceptionHandler;
    }
''', '''  private record NamedDaemonThreadFactory(String threadName,
                                         UncaughtExceptionHandler uncaughtExceptionHandler)
      implements ThreadFactory {

    private static final String DASH_FORMAT = "%s-%s";
    private static final AtomicInteger threadNumber = new AtomicInteger();
'''))
ref("i5-dd-record-key",
  (DD, "anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "map(en -> new Key<>(en.getStateEvent())).anyMatch(new Key<>(stateEvent)::equals)"),
  (DD, '''  @Override
  public int getEventQueueSize() {''', '''  private record Key<S>(StateEvent<S> event) {

  }

  @Override
  public int getEventQueueSize() {'''))
