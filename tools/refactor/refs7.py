"""A seventh set: table objects, sealed outcomes, optionals, guards folded together, helper classes that hold the pieces."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
from refs6 import MOVE
R = []
def ref(name, *edits): R.append((name, edits))

# --- GenericStateMachine: configuration
ref("k7-row-accessor",
  (G, "    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);\n", "    row().putIfAbsent(stateEvent, null);\n"),
  (G, "      this.states.get(this.markedState).put(immediateEvent, this.endState);\n", "      row().put(immediateEvent, this.endState);\n"),
  (G, "      this.states.get(this.markedState).put(this.markedEvent, this.endState);\n", "      row().put(this.markedEvent, this.endState);\n"),
  (G, "    this.states.get(this.markedState).put(this.markedEvent, state);\n", "    row().put(this.markedEvent, state);\n"),
  (G, "    this.states.get(this.markedState).put(this.markedEvent, this.noopState);\n", "    row().put(this.markedEvent, this.noopState);\n"),
  (G, "    State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);\n", "    State<T, S> toState = row().get(this.markedEvent);\n"),
  (G, "    if (!this.states.get(this.markedState).isEmpty()) {\n", "    if (!row().isEmpty()) {\n"),
  (G, "since transitions for the State exist: \" + this.states.get(this.markedState)\n", "since transitions for the State exist: \" + row()\n"),
  (G, "  private void assertNotReservedState(State<T, S> state) {\n", '''  private Map<StateEvent<S>, State<T, S>> row() {
    return states.get(markedState);
  }

  private void assertNotReservedState(State<T, S> state) {
'''))
ref("k7-row-default", (G, "endState.equals(states.get(initState).get(immediateEvent))", "endState.equals(states.getOrDefault(initState, noTransitionMap).get(immediateEvent))"))
ref("k7-put-absent-table", (G, "    states.put(initState, new HashMap<>());\n    states.put(endState, noTransitionMap);\n    states.put(noState, noTransitionMap);\n    states.put(noopState, noTransitionMap);\n",
  "    java.util.List.of(endState, noState, noopState).forEach(reserved -> states.put(reserved, noTransitionMap));\n    states.put(initState, new HashMap<>());\n"))
ref("k7-map-to-merge", (G, "    assertEventNotMapped();\n    this.states.get(this.markedState).put(this.markedEvent, state);\n    this.markedState = null;\n    this.markedEvent = null;\n    return this;\n", "    return mapMarkedEventTo(state);\n"),
  (G, "    assertEventNotMapped();\n    this.states.get(this.markedState).put(this.markedEvent, this.noopState);\n    this.markedState = null;\n    this.markedEvent = null;\n    return this;\n", "    return mapMarkedEventTo(this.noopState);\n"),
  (G, "  private void assertNotReservedState(State<T, S> state) {\n", '''  private StateMachine<T, S> mapMarkedEventTo(State<T, S> target) {
    assertEventNotMapped();
    Map<StateEvent<S>, State<T, S>> outcomes = states.get(markedState);
    outcomes.put(markedEvent, target);
    markedEvent = null;
    markedState = null;
    return this;
  }

  private void assertNotReservedState(State<T, S> state) {
'''))
ref("k7-check-supplier", (G, '''    if (exists && this.markedState == null) {
      throw new IllegalStateException("A state has to be marked to be configured using when().");
    } else if (!exists && this.markedState != null) {
      throw new IllegalStateException(
          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
    }
''', '''    check(!exists || markedState != null,
        () -> "A state has to be marked to be configured using when().");
    check(exists || markedState == null,
        () -> "A StateEvent for State [" + markedState.getName() + "] has to be defined first.");
'''), (G, '''    if (exists && this.initState == null) {
      throw new IllegalStateException("An initial State has to be defined first.");
    } else if (!exists && this.initState != null) {
      throw new IllegalStateException(
          "An initial State [" + this.initState.getName() + "] already exists.");
    }
''', '''    check(!exists || initState != null, () -> "An initial State has to be defined first.");
    check(exists || initState == null,
        () -> "An initial State [" + initState.getName() + "] already exists.");
'''), (G, "  public void notifyStateMachineListener(boolean", '''  private static void check(boolean ok, java.util.function.Supplier<String> message) {
    if (!ok) {
      throw new IllegalStateException(message.get());
    }
  }

  public void notifyStateMachineListener(boolean'''))
ref("k7-require-init", (G, '''    if (exists && this.initState == null) {
      throw new IllegalStateException("An initial State has to be defined first.");
    } else if (!exists && this.initState != null) {
      throw new IllegalStateException(
          "An initial State [" + this.initState.getName() + "] already exists.");
    }
''', '''    if (exists == (this.initState != null)) {
      return;
    }
    throw new IllegalStateException(exists ? "An initial State has to be defined first."
        : "An initial State [" + this.initState.getName() + "] already exists.");
'''))
ref("k7-reserved-set", (G, "reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))", "reservedStateNames.stream().filter(r -> r.equals(state.getName())).count() > 0"))
ref("k7-optional-mapped", (G, '''    State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
    if (toState != null) {
      throw new IllegalStateException(
          "State [" + this.markedState.getName() + "] already transitions to State [" + toState
              + "] when StateEvent [" + this.markedEvent.getName() + "] is received.");
    }
''', '''    java.util.Optional.ofNullable(this.states.get(this.markedState))
        .map(outcomes -> outcomes.get(this.markedEvent))
        .ifPresent(toState -> {
          throw new IllegalStateException(
              "State [" + this.markedState.getName() + "] already transitions to State [" + toState
                  + "] when StateEvent [" + this.markedEvent.getName() + "] is received.");
        });
'''))
# --- GenericStateMachine: running
ref("k7-start-guarded", (G, '''    if (beginIn(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();
      }
    } else {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''    begin(initState);
    enterInitialState();
    if (endState.equals(states.get(initState).get(immediateEvent))) {
      stop();
    }
'''), (G, '''    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
  }
''', '''    begin(state);
  }

  private void begin(State<T, S> state) {
    boolean begun = beginIn(state);
    if (!begun) {
      throw new IllegalStateException("The state machine has already been started");
    }
  }

  private void enterInitialState() {
    State<T, S> entered = initState;
    notifyStateMachineListener(false, noState, immediateEvent, entered);
    entered.onEntry(immediateEvent, this);
    notifyStateMachineListener(true, noState, immediateEvent, entered);
  }
'''))
ref("k7-begin-sync-block", (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
  }
''', '''  private boolean beginIn(State<T, S> state) {
    synchronized (this) {
      boolean first = !isStarted.get();
      if (first) {
        isEnded.set(false);
        currentState = state;
        isStarted.set(true);
      }
      return first;
    }
  }
'''))
ref("k7-update-flag", (G, '''    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''    boolean isEndState = state.equals(endState);
    boolean updated = isEnded.compareAndSet(false, isEndState);
    if (!updated) {
      return;
    }
    currentState = state;
'''))
ref("k7-fire-status", (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    final boolean started = isStarted();
    if (started && !isEnded()) {
      eventProcessingStrategy.processEvent(stateEvent, this);
    } else if (!started) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    }
'''))
ref("k7-fire-unexpected-helper", (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
  }
''', '''    if (!isUnexpected(stateEvent)) {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
  }

  /* An event is unexpected before the machine is started and after it has ended */
  private boolean isUnexpected(StateEvent<S> stateEvent) {
    if (!isStarted.get()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
      return true;
    }
    if (isEnded.get()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
      return true;
    }
    return false;
  }
'''))
ref("k7-notify-defaults", (G, '''      if (fromState == null) {
        fromState = this.noState;
      }
      if (toState == null) {
        toState = this.noState;
      }
      if (stateEvent == null) {
        stateEvent = this.immediateEvent;
      }
      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
    }
''', '''      State<T, S> from = java.util.Objects.requireNonNullElse(fromState, noState);
      State<T, S> to = java.util.Objects.requireNonNullElse(toState, noState);
      StateEvent<S> event = java.util.Objects.requireNonNullElseGet(stateEvent, this::getImmediateEvent);
      java.util.Map<Boolean, Runnable> calls = Map.of(
          true, () -> listener.onStateChangeEnd(from, event, to),
          false, () -> listener.onStateChangeBegin(from, event, to));
      calls.get(isComplete).run();
    }
'''))
ref("k7-validate-first-missing", (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    firstIncomplete().ifPresent(message -> {
      throw new IllegalStateException(message);
    });
'''), (G, "  public StateEvent<S> getImmediateEvent() {", '''  private java.util.Optional<String> firstIncomplete() {
    for (State<T, S> state : states.keySet()) {
      for (StateEvent<S> event : states.get(state).keySet()) {
        if (states.get(state).get(event) == null) {
          return java.util.Optional.of("State " + state.getName() + " dose not transition when a "
              + event.getName() + " event is received");
        }
      }
    }
    return java.util.Optional.empty();
  }

  public StateEvent<S> getImmediateEvent() {'''), (G, "import java.util.Map.Entry;\n", ""))
ref("k7-validate-contains-value", (G, '''      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
''', '''      if (entry.getValue().containsValue(null)) {
        String missing = entry.getValue().entrySet().stream().filter(e -> e.getValue() == null)
            .map(e -> e.getKey().getName()).findFirst().orElse("");
        throw new IllegalStateException("State " + entry.getKey().getName()
            + " dose not transition when a " + missing + " event is received");
      }
'''))
# --- TransitionTask
ref("k7-task-switch-kind", (TT, EXEC if False else '''    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    if (machine.getNoopState().equals(toState)) {
      // No transition but notify the listener so it can tell a StateEvent was received
      machine.notifyStateMachineListener(false, machine.getCurrentState(), event, toState);
      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);
      return;
    }
''' + MOVE + "  }\n", '''    switch (kindOf(toState, machine)) {
      case UNMAPPED -> unmappedEventHandler.accept(event, machine);
      case NOOP -> {
        State<T, S> current = machine.getCurrentState();
        machine.notifyStateMachineListener(false, current, event, toState);
        machine.notifyStateMachineListener(true, current, event, toState);
      }
      case MOVE -> move(event, machine, toState);
      default -> throw new AssertionError();
    }
  }

  private enum Kind { UNMAPPED, NOOP, MOVE }

  private Kind kindOf(State<T, S> toState, GenericStateMachine<T, S> machine) {
    if (toState == null) {
      return Kind.UNMAPPED;
    }
    return machine.getNoopState().equals(toState) ? Kind.NOOP : Kind.MOVE;
  }

  private void move(StateEvent<S> event, GenericStateMachine<T, S> machine, State<T, S> toState) {
''' + MOVE + "  }\n"))
ref("k7-task-optional", (TT, '''    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    if (machine.getNoopState().equals(toState)) {
''', '''    java.util.Optional.ofNullable(toState).ifPresentOrElse(to -> go(event, machine, to),
        () -> unmappedEventHandler.accept(event, machine));
  }

  private void go(StateEvent<S> event, GenericStateMachine<T, S> machine, State<T, S> toState) {
    if (machine.getNoopState().equals(toState)) {
'''))
ref("k7-task-row", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
''', '''    Map<StateEvent<S>, State<T, S>> next = states.get(toState);
    boolean hasOutcomes = next != null
        && !machine.getEndState().equals(next.get(machine.getImmediateEvent()));
    if (hasOutcomes) {
      return;
    }
    machine.stop();
'''))
ref("k7-task-announce-lambda", (TT, '''    machine.notifyStateMachineListener(false, fromState, event, toState);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
''', '''    java.util.function.Consumer<Boolean> announce = complete ->
        machine.notifyStateMachineListener(complete, fromState, event, toState);
    announce.accept(false);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    announce.accept(true);
'''))
# --- DefaultEventStrategy
ref("k7-drain-for", (DS, "      while (!eventQueue.isEmpty()) {\n        EventMachinePair<T, S> consumedPair = eventQueue.poll();\n", "      for (EventMachinePair<T, S> consumedPair = eventQueue.poll(); consumedPair != null;\n          consumedPair = eventQueue.poll()) {\n"))
ref("k7-drain-continue", (DS, '''        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch''', '''        try {
          if (stateMachine.isEnded()) {
            continue;
          }
          transitionTask.execute(event, machine);
        } catch'''))
ref("k7-accept-record", (DS, '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
''', '''    Room room = new Room(maxQueueSize, getEventQueueSize());
    if (room.isFull()) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), room.failure());
      return;
    }
'''), (DS, "  @Override\n  public void setStates(", '''  private record Room(int max, int size) {

    boolean isFull() {
      boolean bounded = max > 0;
      return bounded && !(size < max);
    }

    IllegalStateException failure() {
      return new IllegalStateException(
          "Queue size is maxed out at " + size + " - dropping event");
    }
  }

  @Override
  public void setStates('''))
ref("k7-process-split", (DS, '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
    if (!eventQueue.offer(inboundPair)) {
      eventMachinePairPool.give(inboundPair);
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
      return;
    }
    executor.execute(() -> {
''', '''    if (enqueue(stateEvent, stateMachine)) {
      executor.execute(drainFor(stateMachine));
      return;
    }
    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
        Thread.currentThread(), new IllegalStateException(
            "The event queue refused the event - dropping event"));
  }

  private boolean enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
    EventMachinePair<T, S> pair = eventMachinePairPool.take();
    StateEvent<S> kept = stateEvent instanceof NamedStateEvent ? new NamedStateEvent<>(stateEvent)
        : stateEvent;
    pair.setEventMachinePair(kept, stateMachine);
    boolean accepted = eventQueue.offer(pair);
    if (!accepted) {
      eventMachinePairPool.give(pair);
    }
    return accepted;
  }

  private Runnable drainFor(GenericStateMachine<T, S> stateMachine) {
    return () -> {
'''), (DS, '''          eventMachinePairPool.give(consumedPair);
        }
      }
    });
''', '''          eventMachinePairPool.give(consumedPair);
        }
      }
    };
'''))
ref("k7-drain-class", (DS, '''    executor.execute(() -> {
      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
    });
  }
''', '''    executor.execute(new Drain(stateMachine));
  }

  private final class Drain implements Runnable {

    private final GenericStateMachine<T, S> owner;

    private Drain(GenericStateMachine<T, S> owner) {
      this.owner = owner;
    }

    @Override
    public void run() {
      EventMachinePair<T, S> pair = eventQueue.poll();
      while (pair != null) {
        handle(pair);
        pair = eventQueue.poll();
      }
    }

    private void handle(EventMachinePair<T, S> pair) {
      StateEvent<S> event = pair.getStateEvent();
      GenericStateMachine<T, S> machine = pair.getStateMachine();
      try {
        if (!owner.isEnded()) {
          transitionTask.execute(event, machine);
        }
      } catch (Exception e) {
        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
            Thread.currentThread(), e);
      } finally {
        eventMachinePairPool.give(pair);
      }
    }
  }
'''))
ref("k7-drop-reason", (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
''', '''      drop(stateEvent, stateMachine, "Queue size is maxed out at %d", queueSize);
      return;
'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
      return;
''', '''      drop(stateEvent, stateMachine, "The event queue refused the event");
      return;
'''), (DS, "  @Override\n  public void setStates(", '''  private void drop(StateEvent<S> event, GenericStateMachine<T, S> machine, String reason,
      Object... args) {
    String message = String.format(reason, args) + " - dropping event";
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(),
        new IllegalStateException(message));
  }

  @Override
  public void setStates('''))
# --- DropDuplicateEventStrategy
ref("k7-dd-iterator-while", (DD, '''    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
''', '''    boolean duplicate = false;
    java.util.Iterator<EventMachinePair<T, S>> waiting = eventQueue.iterator();
    while (!duplicate && waiting.hasNext()) {
      duplicate = stateEvent.equals(waiting.next().getStateEvent());
    }
    if (duplicate) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
'''))
ref("k7-dd-filter-findany", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "eventQueue.stream().map(EventMachinePair::getStateEvent).filter(e -> stateEvent.equals(e)).findAny().isPresent()"))
ref("k7-dd-predicate", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    java.util.function.Predicate<EventMachinePair<T, S>> same = waiting -> stateEvent.equals(waiting.getStateEvent());\n    if (!eventQueue.stream().noneMatch(same)) {\n"))
# --- pool
ref("k7-pool-optional", (POOL, '''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', "    return java.util.Optional.ofNullable(pool.poll()).orElseGet(EventMachinePair::new);\n"))
ref("k7-pool-guard", (POOL, '''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    if (eventMachinePair == null) {
      return;
    }
    eventMachinePair.setEventMachinePair(null, null);
    pool.add(eventMachinePair);
'''))
# --- factory
ref("k7-config-optional", (F, '''      if (eventQueue == null) {
        return new ConcurrentLinkedQueue<>();
      }
      return eventQueue;
''', "      return java.util.Optional.ofNullable(eventQueue).orElseGet(ConcurrentLinkedQueue::new);\n"), (F, '''      if (unexpectedFlowListener == null) {
        unexpectedFlowListener = new DefaultUnexpectedFlowListener<>();
      }
      return unexpectedFlowListener;
''', "      return java.util.Optional.ofNullable(unexpectedFlowListener).orElseGet(DefaultUnexpectedFlowListener::new);\n"))
ref("k7-config-no-memo", (F, '''      if (unmappedEventHandler == null) {
        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
      }
      return unmappedEventHandler;
''', '''      return unmappedEventHandler != null ? unmappedEventHandler : this::logUnmapped;
    }

    private void logUnmapped(StateEvent<S> event, StateMachine<T, S> machine) {
      String state = machine.getCurrentState().getName();
      logger.info(LOG_EVENT_NOT_MAPPED, event.getName(), state);
'''))
ref("k7-config-executor-parts", (F, '''      if (executor == null) {
        return Executors.newSingleThreadExecutor(
            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
      }
      return executor;
''', '''      if (executor != null) {
        return executor;
      }
      String name = java.util.Objects.requireNonNullElse(threadName, "state-machine");
      Thread.UncaughtExceptionHandler handler = this::logUncaught;
      return Executors.newSingleThreadExecutor(Threads.newNamedDaemonThreadFactory(name, handler));
    }

    private void logUncaught(Thread thread, Throwable thrown) {
      logger.error(LOG_UNHANDLED_EXCEPTION, thread.getName(), thrown);
'''))
ref("k7-factory-enum-kinds", (F, "    return newDefaultStrategy(config);\n", "    return Kind.ALL_EVENTS.create(config);\n"), (F, "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));\n", "    return Kind.NO_DUPLICATES.create(config);\n"),
  (F, "  private static <T, S> DefaultEventStrategy<T, S> newDefaultStrategy(", '''  private enum Kind {
    ALL_EVENTS {
      @Override
      <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config) {
        return newDefaultStrategy(config);
      }
    }, NO_DUPLICATES {
      @Override
      <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config) {
        return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));
      }
    };

    abstract <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config);
  }

  private static <T, S> DefaultEventStrategy<T, S> newDefaultStrategy('''))
# --- listeners
ref("k7-mc-snapshot", (MC, '''  @Override
  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
''', '''  @Override
  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : new java.util.ArrayList<>(consumers.values())) {
'''))
ref("k7-mc-failures-class", (MC, '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
''', '''    Failures failures = new Failures();
    for (StateMachineListener<T, S> listener : consumers.values()) {
      failures.guard(() -> listener.onStateChangeBegin(fromState, event, toState));
    }
    failures.rethrow();
'''), (MC, '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeEnd(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
''', '''    Failures failures = new Failures();
    for (StateMachineListener<T, S> listener : consumers.values()) {
      failures.guard(() -> listener.onStateChangeEnd(fromState, event, toState));
    }
    failures.rethrow();
'''), (MC, '''  private static RuntimeException firstFailure(RuntimeException first, RuntimeException next) {
    if (first == null) {
      return next;
    }
    if (first != next) {
      first.addSuppressed(next);
    }
    return first;
  }
''', '''  private static final class Failures {

    private RuntimeException first;

    private void guard(Runnable call) {
      try {
        call.run();
      } catch (RuntimeException e) {
        if (first == null) {
          first = e;
        } else if (first != e) {
          first.addSuppressed(e);
        }
      }
    }

    private void rethrow() {
      if (first != null) {
        throw first;
      }
    }
  }
'''))
ref("k7-mc-failure-list", (MC, '''  @Override
  public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeEnd(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
''', '''  @Override
  public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    java.util.List<RuntimeException> failures = new java.util.ArrayList<>();
    consumers.values().forEach(listener -> {
      try {
        listener.onStateChangeEnd(fromState, event, toState);
      } catch (RuntimeException e) {
        failures.add(e);
      }
    });
    if (failures.isEmpty()) {
      return;
    }
    RuntimeException failure = null;
    for (RuntimeException e : failures) {
      failure = firstFailure(failure, e);
    }
    throw failure;
'''))
ref("k7-ns-stream-run", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    run(this.entryActions.iterator(), stateEvent, stateMachine);\n"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    run(this.exitActions.iterator(), stateEvent, stateMachine);\n"),
  (NS, "  @Override\n  public String getName() {\n", '''  private void run(java.util.Iterator<StateAction<T, S>> actions, StateEvent<S> event,
      StateMachine<T, S> machine) {
    while (actions.hasNext()) {
      actions.next().execute(event, machine);
    }
  }

  @Override
  public String getName() {
'''))
ref("k7-ns-add-helper", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);\n", "    addTo(this.entryActions, actions);\n"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);\n", "    addTo(this.exitActions, actions);\n"), (NS, "import java.util.stream.Stream;\n", ""),
  (NS, "  @Override\n  public String getName() {\n", '''  private void addTo(List<StateAction<T, S>> target, StateAction<T, S>[] actions) {
    for (int i = 0; i < actions.length; i++) {
      if (actions[i] == null) {
        continue;
      }
      target.add(actions[i]);
    }
  }

  @Override
  public String getName() {
'''))
ref("k7-ns-equals-class-cast", (NS, '''    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
''', '''    return NamedState.class.isInstance(o) && Objects.equals(NamedState.class.cast(o).name, name);
'''))
ref("k7-ne-equals-optional", (NE, '''    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);
''', '''    return o != null && getClass().equals(o.getClass())
        && Objects.equals(((NamedStateEvent) o).getName(), getName());
'''))
# --- service
ref("k7-as-stop-switch", (AS, '''    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    boolean isStopped = LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState);
    if (isExitOnStop && isStopped) {
      return;
    }
    if (!isStopped && !LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)) {
      throw new IllegalStateException(
          "Cannot stop the app when it's in [" + currentAppState + "] state");
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
'''))
ref("k7-as-start-split", (AS, '''    if (!appStateMachine.isStarted()) {
      // start the state machine and the app then wait indefinitely
      appStateMachine.start();
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
      try {
        appLatch.await();
      } catch (InterruptedException e) {
        logger.error("Main latch was interrupted", e);
        Thread.currentThread().interrupt();
        if (!appStateMachine.isEnded()) {
          stop();
        }
      }
    } else if (!isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      //re-start the app
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    } else {
      throw new IllegalStateException(
          "Cannot start the app when it's in [" + currentAppState + "] state");
    }
  }
''', '''    boolean first = !appStateMachine.isStarted();
    if (!first && !isRestartable(currentAppState)) {
      throw new IllegalStateException(
          "Cannot start the app when it's in [" + currentAppState + "] state");
    }
    if (first) {
      appStateMachine.start();
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    if (first) {
      awaitEnd();
    }
  }

  private boolean isRestartable(String state) {
    return !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(state);
  }

  private void awaitEnd() {
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      Thread.currentThread().interrupt();
      if (!appStateMachine.isEnded()) {
        stop();
      }
    }
  }
'''))
ref("k7-as-subsystems-foreach", (AS, '''          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
''', "          appContext.getSubsystems().forEach(subsystem -> subsystem.start(appContext));\n"))
ref("k7-as-stop-reversed-copy", (AS, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          List<Subsystem<C>> reversed = new java.util.ArrayList<>(appContext.getSubsystems());
          java.util.Collections.reverse(reversed);
          reversed.forEach(subsystem -> subsystem.stop(appContext));
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("k7-as-handler-method", (AS, '''    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {
      logger.error("Error while {} is in [{}] state", appName, sm.getCurrentState(), e);
      appStateMachine.fire(LifecycleStateMachineUtil.evtError);
    };
''', "    ExceptionHandler<C, Void> exceptionHandler = this::onLifecycleException;\n"), (AS, "  private String stateName(", '''  private void onLifecycleException(StateEvent<Void> event,
      StateMachine<C, Void> machine, Exception e) {
    logger.error("Error while {} is in [{}] state", appContext.getAppName(),
        machine.getCurrentState(), e);
    appStateMachine.fire(LifecycleStateMachineUtil.evtError);
  }

  private String stateName('''))
ref("k7-lu-rows", (LU, '''    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);
''', '''    Object[][] rows = {
        {starting, evtComplete, started}, {starting, evtError, stopped},
        {started, evtStop, stopping}, {started, evtError, stopped},
        {stopping, evtComplete, stopped}, {stopping, evtError, stopped},
        {stopped, evtStart, starting}};
    for (Object[] row : rows) {
      stateMachine.when((State<T, Void>) row[0]).receives((com.webotech.statemachine.api.StateEvent<Void>) row[1])
          .itTransitionsTo((State<T, Void>) row[2]);
    }
'''), (LU, "  public static <T> void configureAppStateMachine(", "  @SuppressWarnings(\"unchecked\")\n  public static <T> void configureAppStateMachine("))
ref("k7-th-builder", (TH, '''      Thread thread = new Thread(runnable);
      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));
''', '''      int number = threadNumber.getAndAdd(1);
      Thread thread = new Thread(null, runnable, String.join("-", this.threadName, Integer.toString(number)));
'''))
ref("k7-th-default-factory", (TH, "      Thread thread = new Thread(runnable);\n", "      Thread thread = java.util.concurrent.Executors.defaultThreadFactory().newThread(runnable);\n"))
