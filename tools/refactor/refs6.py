"""A sixth set: pipelines, iterators, read-write locks, number streams, log builders, tables of transitions."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
R = []
def ref(name, *edits): R.append((name, edits))

MOVE = '''    State<T, S> fromState = machine.getCurrentState();
    machine.notifyStateMachineListener(false, fromState, event, toState);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
'''
ref("j6-transition-steps", (TT, MOVE, '''    State<T, S> fromState = machine.getCurrentState();
    List<Runnable> steps = List.of(
        () -> machine.notifyStateMachineListener(false, fromState, event, toState),
        () -> machine.getCurrentState().onExit(event, machine),
        () -> machine.updateCurrentState(toState),
        () -> machine.getCurrentState().onEntry(event, machine),
        () -> machine.notifyStateMachineListener(true, fromState, event, toState));
    steps.forEach(Runnable::run);
    if (isFinal(toState, machine)) {
      machine.stop();
    }
  }

  private boolean isFinal(State<T, S> state, GenericStateMachine<T, S> machine) {
    Map<StateEvent<S>, State<T, S>> outcomes = states.get(state);
    return outcomes == null || machine.getEndState().equals(outcomes.get(machine.getImmediateEvent()));
'''), (TT, "import java.util.Map;\n", "import java.util.List;\nimport java.util.Map;\n"))
ref("j6-transition-stream", (TT, MOVE, '''    State<T, S> fromState = machine.getCurrentState();
    java.util.stream.Stream.<Runnable>of(
        () -> machine.notifyStateMachineListener(false, fromState, event, toState),
        () -> {
          fromState.onExit(event, machine);
          machine.updateCurrentState(toState);
          machine.getCurrentState().onEntry(event, machine);
        },
        () -> machine.notifyStateMachineListener(true, fromState, event, toState)).forEachOrdered(Runnable::run);
    boolean known = states.containsKey(toState);
    boolean ends = known && machine.getEndState() == states.get(toState).get(machine.getImmediateEvent());
    if (!known || ends) {
      machine.stop();
    }
'''))
ref("j6-around", (TT, MOVE, '''    State<T, S> fromState = machine.getCurrentState();
    announced(machine, fromState, event, toState, () -> {
      machine.getCurrentState().onExit(event, machine);
      machine.updateCurrentState(toState);
      machine.getCurrentState().onEntry(event, machine);
    });
    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
'''), (TT, '''      // No transition but notify the listener so it can tell a StateEvent was received
      machine.notifyStateMachineListener(false, machine.getCurrentState(), event, toState);
      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);
      return;
''', '''      // No transition but notify the listener so it can tell a StateEvent was received
      announced(machine, machine.getCurrentState(), event, toState, () -> {
      });
      return;
'''), (TT, "  public void setStates(", '''  private void announced(GenericStateMachine<T, S> machine, State<T, S> from, StateEvent<S> event,
      State<T, S> to, Runnable change) {
    machine.notifyStateMachineListener(false, from, event, to);
    change.run();
    machine.notifyStateMachineListener(true, from, event, to);
  }

  public void setStates('''))
ref("j6-actions-composed",
  (NS, "  private final List<StateAction<T, S>> entryActions;\n  private final List<StateAction<T, S>> exitActions;\n", "  private StateAction<T, S> entry = (event, machine) -> {\n  };\n  private StateAction<T, S> exit = (event, machine) -> {\n  };\n"),
  (NS, "    this.entryActions = new ArrayList<>();\n    this.exitActions = new ArrayList<>();\n", ""),
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    this.entry.execute(stateEvent, stateMachine);\n"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    this.exit.execute(stateEvent, stateMachine);\n"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    for (StateAction<T, S> action : actions) {\n      this.entry = then(this.entry, action);\n    }"),
  (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    for (StateAction<T, S> action : actions) {\n      this.exit = then(this.exit, action);\n    }"),
  (NS, "  @Override\n  public String getName() {", '''  private static <T, S> StateAction<T, S> then(StateAction<T, S> first, StateAction<T, S> second) {
    return second == null ? first : (event, machine) -> {
      first.execute(event, machine);
      second.execute(event, machine);
    };
  }

  @Override
  public String getName() {'''),
  (NS, "import java.util.ArrayList;\nimport java.util.List;\n", ""), (NS, "import java.util.stream.Stream;\n", ""))
ref("j6-actions-intstream",
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    java.util.stream.IntStream.range(0, entryActions.size())\n        .forEach(i -> entryActions.get(i).execute(stateEvent, stateMachine));\n"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    java.util.stream.IntStream.range(0, exitActions.size()).mapToObj(exitActions::get)\n        .forEachOrdered(a -> a.execute(stateEvent, stateMachine));\n"))
ref("j6-actions-while-iterator",
  (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    runAll(entryActions.listIterator(), stateEvent, stateMachine);\n"),
  (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    runAll(exitActions.listIterator(), stateEvent, stateMachine);\n"),
  (NS, "  @Override\n  public String getName() {", '''  private void runAll(java.util.Iterator<StateAction<T, S>> todo, StateEvent<S> event, StateMachine<T, S> machine) {
    while (todo.hasNext()) {
      StateAction<T, S> action = todo.next();
      action.execute(event, machine);
    }
  }

  @Override
  public String getName() {'''))
ref("j6-dd-reduce", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    boolean waiting = eventQueue.stream().map(en -> stateEvent.equals(en.getStateEvent()))\n        .reduce(false, Boolean::logicalOr);\n    if (waiting) {\n"))
ref("j6-dd-toset", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    java.util.Set<StateEvent<S>> waiting = eventQueue.stream().map(EventMachinePair::getStateEvent)\n        .collect(java.util.stream.Collectors.toSet());\n    if (waiting.contains(stateEvent)) {\n"))
ref("j6-dd-mapped-any", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    if (eventQueue.stream().map(EventMachinePair::getStateEvent).anyMatch(stateEvent::equals)) {\n"))
ref("j6-dd-maptoint", (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n", "    int same = eventQueue.stream().mapToInt(en -> stateEvent.equals(en.getStateEvent()) ? 1 : 0).sum();\n    if (same > 0) {\n"))
ref("j6-stop-iterate", (AS, STOP if False else '''          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          java.util.stream.IntStream.iterate(subsystems.size() - 1, i -> i >= 0, i -> i - 1)
              .mapToObj(subsystems::get).forEach(subsystem -> subsystem.stop(appContext));
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("j6-stop-collect-deque", (AS, '''          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          subsystems.stream().collect(java.util.stream.Collectors.toCollection(java.util.ArrayDeque::new))
              .descendingIterator().forEachRemaining(subsystem -> subsystem.stop(appContext));
'''), (AS, "import java.util.ListIterator;\n", ""))
ref("j6-stop-for-listiterator", (AS, '''          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
''', '''          for (ListIterator<Subsystem<C>> it = subsystems.listIterator(subsystems.size()); it.hasPrevious(); ) {
            Subsystem<C> subsystem = it.previous();
            subsystem.stop(appContext);
          }
'''))
ref("j6-rw-lock",
  (G, "  private volatile State<T, S> currentState;\n", "  private volatile State<T, S> currentState;\n  private final java.util.concurrent.locks.ReadWriteLock lock = new java.util.concurrent.locks.ReentrantReadWriteLock();\n"),
  (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
''', '''  private boolean beginIn(State<T, S> state) {
    lock.writeLock().lock();
    try {
      if (isStarted.get()) {
        return false;
      }
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
      return true;
    } finally {
      lock.writeLock().unlock();
    }
'''), (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''  public void updateCurrentState(State<T, S> state) {
    lock.writeLock().lock();
    try {
      if (isEnded.compareAndSet(false, state.equals(endState))) {
        currentState = state;
      }
    } finally {
      lock.writeLock().unlock();
    }
'''))
ref("j6-stamped-lock",
  (G, "  private volatile State<T, S> currentState;\n", "  private volatile State<T, S> currentState;\n  private final java.util.concurrent.locks.StampedLock lock = new java.util.concurrent.locks.StampedLock();\n"),
  (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
''', '''  private boolean beginIn(State<T, S> state) {
    long stamp = lock.writeLock();
    try {
      if (isStarted.get()) {
        return false;
      }
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
      return true;
    } finally {
      lock.unlockWrite(stamp);
    }
'''), (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''  public void updateCurrentState(State<T, S> state) {
    long stamp = lock.writeLock();
    try {
      if (isEnded.compareAndSet(false, state.equals(endState))) {
        currentState = state;
      }
    } finally {
      lock.unlockWrite(stamp);
    }
'''))
ref("j6-locked-helper",
  (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
''', '''  private boolean beginIn(State<T, S> state) {
    return locked(() -> {
      boolean first = !isStarted.get();
      if (first) {
        isEnded.set(false);
        currentState = state;
        isStarted.set(true);
      }
      return first;
    });
  }

  private synchronized <R> R locked(java.util.function.Supplier<R> change) {
    return change.get();
'''), (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''  public void updateCurrentState(State<T, S> state) {
    locked(() -> {
      if (isEnded.compareAndSet(false, state.equals(endState))) {
        currentState = state;
      }
      return null;
    });
'''))
ref("j6-log-builder",
  (LL, '''        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
''', '''        logger.atInfo().log(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
'''), (DU, "    logger.warn(\"Event {} received after state machine has ended\", stateEvent);\n", "    logger.atWarn().log(\"Event {} received after state machine has ended\", stateEvent);\n"))
ref("j6-log-level",
  (LL, "      if (isComplete) {\n        logger.info(LOG_TRANSITIONED, newState.getName());\n", "      if (isComplete) {\n        logger.log(org.apache.logging.log4j.Level.INFO, LOG_TRANSITIONED, newState.getName());\n"))
LEGS = '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);
    stateMachine.when(stopped).receives(evtStop).itEnds();
'''
ref("j6-lu-nested-map", (LU, LEGS, '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    Map<State<T, Void>, Map<StateEvent<Void>, State<T, Void>>> table = Map.of(
        starting, Map.of(evtComplete, started, evtError, stopped),
        started, Map.of(evtStop, stopping, evtError, stopped),
        stopping, Map.of(evtComplete, stopped, evtError, stopped),
        stopped, Map.of(evtStart, starting));
    table.forEach((from, row) -> row.forEach(
        (event, to) -> stateMachine.when(from).receives(event).itTransitionsTo(to)));
    stateMachine.when(stopped).receives(evtStop).itEnds();
'''), (LU, "import com.webotech.statemachine.api.StateMachine;\n", "import com.webotech.statemachine.api.StateMachine;\nimport java.util.Map;\n"))
ref("j6-lu-leg-helper", (LU, LEGS, '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    leg(stateMachine, starting, evtComplete, started);
    leg(stateMachine, started, evtStop, stopping);
    leg(stateMachine, stopping, evtComplete, stopped);
    for (State<T, Void> fragile : List.of(starting, started, stopping)) {
      leg(stateMachine, fragile, evtError, stopped);
    }
    leg(stateMachine, stopped, evtStart, starting);
    leg(stateMachine, stopped, evtStop, null);
  }

  private static <T> void leg(StateMachine<T, Void> machine, State<T, Void> from, StateEvent<Void> event, State<T, Void> to) {
    StateMachine<T, Void> marked = machine.when(from).receives(event);
    if (to == null) {
      marked.itEnds();
    } else {
      marked.itTransitionsTo(to);
    }
'''), (LU, "import com.webotech.statemachine.api.StateMachine;\n", "import com.webotech.statemachine.api.StateMachine;\nimport java.util.List;\n"))
ref("j6-drain-iterator", (DS, '''      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
''', '''      for (java.util.Iterator<EventMachinePair<T, S>> waiting = new Waiting(); waiting.hasNext(); ) {
        EventMachinePair<T, S> consumedPair = waiting.next();
'''), (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {", '''  private class Waiting implements java.util.Iterator<EventMachinePair<T, S>> {

    @Override
    public boolean hasNext() {
      return !eventQueue.isEmpty();
    }

    @Override
    public EventMachinePair<T, S> next() {
      return eventQueue.poll();
    }
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("j6-drain-try-resources", (DS, '''        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
''', '''        try (Lease<T, S> lease = new Lease<>(eventMachinePairPool, consumedPair)) {
          process(lease.pair.getStateEvent(), lease.pair.getStateMachine(), stateMachine);
        }
'''), (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {", '''  private void process(StateEvent<S> event, GenericStateMachine<T, S> machine, GenericStateMachine<T, S> firedOn) {
    try {
      if (!firedOn.isEnded()) {
        transitionTask.execute(event, machine);
      }
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), e);
    }
  }

  private static final class Lease<T, S> implements AutoCloseable {

    private final EventMachinePairPool<T, S> pool;
    private final EventMachinePair<T, S> pair;

    private Lease(EventMachinePairPool<T, S> pool, EventMachinePair<T, S> pair) {
      this.pool = pool;
      this.pair = pair;
    }

    @Override
    public void close() {
      pool.give(pair);
    }
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("j6-scheduled-single", (F, "        return Executors.newSingleThreadExecutor(\n", "        return Executors.newSingleThreadScheduledExecutor(\n"))
ref("j6-th-getandupdate", (TH, "threadNumber.getAndIncrement()", "threadNumber.getAndUpdate(n -> n + 1)"))
ref("j6-th-atomiclong", (TH, "AtomicInteger threadNumber = new AtomicInteger()", "AtomicLong threadNumber = new AtomicLong()"), (TH, "import java.util.concurrent.atomic.AtomicInteger;", "import java.util.concurrent.atomic.AtomicLong;"))
ref("j6-th-concat-builder", (TH, "String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement())", "new StringBuilder(threadName).append('-').append(threadNumber.getAndIncrement()).toString()"), (TH, '    private static final String DASH_FORMAT = "%s-%s";\n', ""))
ref("j6-copy-factory", (NE, "  private NamedStateEvent(String name, S payload) {", '''  public static <P> NamedStateEvent<P> snapshotOf(StateEvent<P> original) {
    NamedStateEvent<P> snapshot = new NamedStateEvent<>(original.getName());
    snapshot.setPayload(original.getPayload());
    return snapshot;
  }

  private NamedStateEvent(String name, S payload) {'''), (DS, "new NamedStateEvent<>(stateEvent)", "NamedStateEvent.snapshotOf(stateEvent)"))
ref("j6-reject-enum", (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
''', '''      refuse(stateEvent, stateMachine, Refusal.MAXED_OUT.message(queueSize));
      return;
'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
      return;
''', '''      refuse(stateEvent, stateMachine, Refusal.REFUSED.message(queueSize));
      return;
'''), (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {", '''  private void refuse(StateEvent<S> event, GenericStateMachine<T, S> machine, String why) {
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(),
        new IllegalStateException(why));
  }

  private enum Refusal {
    MAXED_OUT("Queue size is maxed out at %s - dropping event"),
    REFUSED("The event queue refused the event - dropping event");

    private final String template;

    Refusal(String template) {
      this.template = template;
    }

    private String message(int size) {
      return String.format(template, size);
    }
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("j6-capacity-strategy", (DS, '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
''', '''    int queueSize = getEventQueueSize();
    if (isFull.test(queueSize)) {
'''), (DS, "  private final int maxQueueSize;\n", "  private final java.util.function.IntPredicate isFull;\n"), (DS, "    this.maxQueueSize = maxQueueSize;\n", "    this.isFull = maxQueueSize > 0 ? size -> size >= maxQueueSize : size -> false;\n"))
ref("j6-outcomes-record", (G, '''    this.states.get(this.markedState).put(this.markedEvent, this.noopState);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    return conclude(this.noopState);
  }

  private StateMachine<T, S> conclude(State<T, S> outcome) {
    Map<StateEvent<S>, State<T, S>> row = this.states.get(this.markedState);
    row.put(this.markedEvent, outcome);
    return unmark();
  }

  private StateMachine<T, S> unmark() {
    this.markedState = null;
    this.markedEvent = null;
    return this;
'''), (G, '''    this.states.get(this.markedState).put(this.markedEvent, state);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', "    return conclude(state);\n"), (G, '''      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''      return conclude(this.endState);
    }
    return unmark();
'''))
ref("j6-validate-entries-of-entries", (G, '''      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
''', '''      entry.getValue().entrySet().stream().filter(e -> Objects.isNull(e.getValue())).map(Entry::getKey)
          .findFirst().ifPresent(event -> {
            throw new IllegalStateException(
                "State " + key.getName() + " dose not transition when a " + event.getName()
                    + " event is received");
          });
'''), (G, "import java.util.Map.Entry;\n", "import java.util.Map.Entry;\nimport java.util.Objects;\n"))
ref("j6-mc-stream-failures", (MC, '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
''', '''    announce(listener -> listener.onStateChangeBegin(fromState, event, toState));
'''), (MC, '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeEnd(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
  }
''', '''    announce(listener -> listener.onStateChangeEnd(fromState, event, toState));
  }

  private void announce(java.util.function.Consumer<StateMachineListener<T, S>> call) {
    java.util.concurrent.atomic.AtomicReference<RuntimeException> failure = new java.util.concurrent.atomic.AtomicReference<>();
    consumers.forEach((key, listener) -> {
      try {
        call.accept(listener);
      } catch (RuntimeException e) {
        failure.accumulateAndGet(e, MultiConsumerStateMachineListener::firstFailure);
      }
    });
    if (failure.get() != null) {
      throw failure.get();
    }
  }
'''))
ref("j6-notify-method-ref", (G, '''      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
    }
  }
''', '''      Announcement<T, S> announcement = isComplete ? listener::onStateChangeEnd : listener::onStateChangeBegin;
      announcement.make(fromState, stateEvent, toState);
    }
  }

  @FunctionalInterface
  private interface Announcement<T, S> {

    void make(State<T, S> fromState, StateEvent<S> stateEvent, State<T, S> toState);
  }
'''))
ref("j6-fire-enummap", (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
  }
''', '''    receivers.get(phase()).accept(stateEvent);
  }

  private enum Phase {NOT_STARTED, RUNNING, ENDED}

  private Phase phase() {
    if (!isStarted()) {
      return Phase.NOT_STARTED;
    }
    return isEnded() ? Phase.ENDED : Phase.RUNNING;
  }

  private final Map<Phase, java.util.function.Consumer<StateEvent<S>>> receivers = new java.util.EnumMap<>(Phase.class);
'''), (G, "    isStarted = new AtomicBoolean(false);\n", '''    receivers.put(Phase.NOT_STARTED, event -> unexpectedFlowListener.onEventBeforeMachineStart(event, this));
    receivers.put(Phase.RUNNING, event -> eventProcessingStrategy.processEvent(event, this));
    receivers.put(Phase.ENDED, event -> unexpectedFlowListener.onEventAfterMachineEnd(event, this));
    isStarted = new AtomicBoolean(false);
'''), (G, "  private final UnexpectedFlowListener<T, S> unexpectedFlowListener;\n", "  private final UnexpectedFlowListener<T, S> unexpectedFlowListener;\n"))
ref("j6-he-checked", (HE, '''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    Exception failure = failureOf(stateEvent, stateMachine);
    if (failure == null) {
      return;
    }
    exceptionHandler.onException(stateEvent, stateMachine, failure);
  }

  private Exception failureOf(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    try {
      stateAction.execute(stateEvent, stateMachine);
      return null;
    } catch (Exception e) {
      return e;
    }
'''))
ref("j6-as-latch-helper", (AS, '''      if (isExitOnStop) {
        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
        appLatch.countDown();
      }
''', '''      if (!isExitOnStop) {
        return;
      }
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
      release();
'''), (AS, '''      if (LifecycleStateMachineUtil.evtStop.equals(event)) {
        // the app ends, in restartable mode this is the only place to release the thread in start()
        appLatch.countDown();
      }
''', '''      if (LifecycleStateMachineUtil.evtStop.equals(event)) {
        release();
      }
'''), (AS, "  private String stateName(", '''  private void release() {
    if (appLatch.getCount() > 0) {
      appLatch.countDown();
    }
  }

  private String stateName('''))
