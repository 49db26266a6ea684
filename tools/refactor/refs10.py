"""A tenth set: classes rewritten around objects that are not there yet (transitions, requirements, channels, phases)."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
from refs8 import src, P
from refs9 import sub, cut, BEGIN_IN, FIELDS, UPD, INIT
R = []
def ref(name, *edits): R.append((name, edits))
def merge(*names):
    e = []
    for n in names: e += dict(R)[n]
    return e

# --- requirements checked through one method with lazily made messages
ref("n10-gsm-require", cut(G, "  private void assertNotReservedState(", "  public void notifyStateMachineListener(", '''  private static void require(boolean holds, java.util.function.Supplier<String> otherwise) {
    if (holds) {
      return;
    }
    throw new IllegalStateException(otherwise.get());
  }

  private void assertNotReservedState(State<T, S> state) {
    String name = state.getName();
    for (String reserved : reservedStateNames) {
      require(!reserved.equals(name), () -> "Invalid state [" + name + "] is using a reserved name.");
    }
  }

  private void assertNotReservedStateEvent(StateEvent<S> stateEvent) {
    require(!immediateEvent.getName().equals(stateEvent.getName()),
        () -> "Invalid StateEvent [" + stateEvent.getName() + "] is using a reserved name.");
  }

  private void assertEventNotMapped() {
    require(markedEvent != null, () -> "A StateEvent has to be defined first using receives().");
    State<T, S> toState = states.get(markedState).get(markedEvent);
    require(toState == null,
        () -> "State [" + markedState.getName() + "] already transitions to State [" + toState
            + "] when StateEvent [" + markedEvent.getName() + "] is received.");
  }

  private void assertNoMappingsExistAtEnd() {
    Map<StateEvent<S>, State<T, S>> row = states.get(markedState);
    require(row.isEmpty(), () -> "It is not possible to immediately end in State ["
        + markedState.getName() + "] since transitions for the State exist: " + row + ".");
  }

  private void assertMarkedStateDefined(boolean exists) {
    if (exists) {
      require(markedState != null, () -> "A state has to be marked to be configured using when().");
    } else {
      require(markedState == null,
          () -> "A StateEvent for State [" + markedState.getName() + "] has to be defined first.");
    }
  }

  private void assertInitStateDefined(boolean exists) {
    require(exists == (initState != null), () -> exists ? "An initial State has to be defined first."
        : "An initial State [" + initState.getName() + "] already exists.");
  }

'''))

# --- the outcome of an event is put by one method, which is told what it is
ref("n10-gsm-outcomes", cut(G, "  public StateMachine<T, S> itEnds() {", "  private void assertNotReservedState(", '''  public StateMachine<T, S> itEnds() {
    assertConfiguring();
    StateEvent<S> event = markedEvent;
    if (event != null) {
      assertEventNotMapped();
    } else {
      assertNoMappingsExistAtEnd();
      event = immediateEvent;
    }
    return outcome(event, endState);
  }

  @Override
  public StateMachine<T, S> itTransitionsTo(State<T, S> state) {
    assertNotReservedState(state);
    return eventOutcome(state);
  }

  @Override
  public StateMachine<T, S> itDoesNotTransition() {
    return eventOutcome(noopState);
  }

  private StateMachine<T, S> eventOutcome(State<T, S> to) {
    assertConfiguring();
    assertEventNotMapped();
    return outcome(markedEvent, to);
  }

  private StateMachine<T, S> outcome(StateEvent<S> event, State<T, S> to) {
    Map<StateEvent<S>, State<T, S>> row = states.get(markedState);
    row.put(event, to);
    markedEvent = null;
    markedState = null;
    return this;
  }

  private void assertConfiguring() {
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
  }

'''))

# --- phases
ref("n10-gsm-phase", sub(G, (FIELDS, '''  private enum Phase {
    NEW(false, false), SHUT(false, true), RUNNING(true, false), ENDED(true, true);

    private final boolean begun;
    private final boolean over;

    Phase(boolean begun, boolean over) {
      this.begun = begun;
      this.over = over;
    }

    Phase ended() {
      return begun ? ENDED : SHUT;
    }
  }

  private volatile Phase phase = Phase.NEW;
'''), (INIT, ""), ("import java.util.concurrent.atomic.AtomicBoolean;\n", ""), (BEGIN_IN, '''  private synchronized boolean beginIn(State<T, S> state) {
    boolean first = !phase.begun;
    if (first) {
      currentState = state;
      phase = Phase.RUNNING;
    }
    return first;
  }
'''), ("    return isStarted.get();\n  }\n\n  @Override\n  public boolean isEnded", "    return phase.begun;\n  }\n\n  @Override\n  public boolean isEnded"),
  ("    return isEnded.get();\n", "    return phase.over;\n"), (UPD, '''  public synchronized void updateCurrentState(State<T, S> state) {
    boolean last = state.equals(endState);
    if (phase.over) {
      return;
    }
    if (last) {
      phase = phase.ended();
    }
    currentState = state;
  }
''')))

# --- a transition is an object that knows what to announce and to do
tt = src(TT)
ref("n10-tt-transition", (TT, None, tt[:tt.index("  void execute(StateEvent<S> event")] + '''  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    java.util.Optional<Transition<T, S>> transition = transition(event, machine);
    transition.ifPresentOrElse(Transition::run, () -> unmappedEventHandler.accept(event, machine));
  }

  private java.util.Optional<Transition<T, S>> transition(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    State<T, S> fromState = machine.getCurrentState();
    State<T, S> toState = states.get(fromState).get(event);
    if (toState == null) {
      return java.util.Optional.empty();
    }
    return java.util.Optional.of(machine.getNoopState().equals(toState)
        ? new Transition<>(machine, event, fromState, toState)
        : new Move<>(machine, event, fromState, toState, states));
  }

  /** An event received in a state: announced, nothing else. */
  private static class Transition<T, S> {

    final GenericStateMachine<T, S> machine;
    final StateEvent<S> event;
    final State<T, S> fromState;
    final State<T, S> toState;

    Transition(GenericStateMachine<T, S> machine, StateEvent<S> event, State<T, S> fromState,
        State<T, S> toState) {
      this.machine = machine;
      this.event = event;
      this.fromState = fromState;
      this.toState = toState;
    }

    final void run() {
      announce(false);
      happen();
      announce(true);
      after();
    }

    void happen() {
      // nothing happens
    }

    void after() {
      // nothing follows
    }

    private void announce(boolean isComplete) {
      machine.notifyStateMachineListener(isComplete, isMove() ? fromState : machine.getCurrentState(), event, toState);
    }

    boolean isMove() {
      return false;
    }
  }

  private static final class Move<T, S> extends Transition<T, S> {

    private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table;

    Move(GenericStateMachine<T, S> machine, StateEvent<S> event, State<T, S> fromState,
        State<T, S> toState, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table) {
      super(machine, event, fromState, toState);
      this.table = table;
    }

    @Override
    boolean isMove() {
      return true;
    }

    @Override
    void happen() {
      machine.getCurrentState().onExit(event, machine);
      machine.updateCurrentState(toState);
      machine.getCurrentState().onEntry(event, machine);
    }

    @Override
    void after() {
      Map<StateEvent<S>, State<T, S>> row = table.get(toState);
      boolean ends = row == null || machine.getEndState().equals(row.get(machine.getImmediateEvent()));
      if (ends) {
        machine.stop();
      }
    }
  }

''' + tt[tt.index("  public void setStates("):]))

# --- the queue, its limit and the pool behind one channel
ds = src(DS)
i = ds.index("    int queueSize = getEventQueueSize();\n"); j = ds.index("  @Override\n  public void setStates(")
ref("n10-ds-channel", (DS, None, ds[:i] + '''    String refusal = send(stateEvent, stateMachine);
    if (refusal == null) {
      executor.execute(() -> receiveAll(stateMachine));
    } else {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(refusal + " - dropping event"));
    }
  }

  /** Returns why the event was not queued, null when it was. */
  private String send(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
    int queueSize = getEventQueueSize();
    if (0 < maxQueueSize && maxQueueSize <= queueSize) {
      return String.format("Queue size is maxed out at %s", queueSize);
    }
    EventMachinePair<T, S> pair = eventMachinePairPool.take();
    pair.setEventMachinePair(snapshotOf(stateEvent), stateMachine);
    boolean queued = eventQueue.offer(pair);
    if (!queued) {
      eventMachinePairPool.give(pair);
    }
    return queued ? null : "The event queue refused the event";
  }

  private static <E> StateEvent<E> snapshotOf(StateEvent<E> stateEvent) {
    return stateEvent instanceof NamedStateEvent ? new NamedStateEvent<>(stateEvent) : stateEvent;
  }

  private void receiveAll(GenericStateMachine<T, S> stateMachine) {
    while (receiveOne(stateMachine)) {
      // until there is none
    }
  }

  private boolean receiveOne(GenericStateMachine<T, S> stateMachine) {
    EventMachinePair<T, S> pair = eventQueue.poll();
    if (pair == null) {
      return false;
    }
    try {
      deliver(pair.getStateEvent(), pair.getStateMachine(), stateMachine.isEnded());
    } finally {
      eventMachinePairPool.give(pair);
    }
    return true;
  }

  private void deliver(StateEvent<S> event, GenericStateMachine<T, S> machine, boolean ended) {
    if (ended) {
      return;
    }
    try {
      transitionTask.execute(event, machine);
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
          Thread.currentThread(), e);
    }
  }

''' + ds[j:]))

# --- listeners: an iterator of deliveries, failures chained by a recursive call
mc = src(MC)
mi = mc.index("  @Override\n  public void onStateChangeBegin(")
ref("n10-mc-recursive", (MC, None, mc[:mi] + '''  @Override
  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    fail(tell(consumers.values().iterator(), null, c -> c.onStateChangeBegin(fromState, event, toState)));
  }

  @Override
  public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    fail(tell(consumers.values().iterator(), null, c -> c.onStateChangeEnd(fromState, event, toState)));
  }

  private RuntimeException tell(java.util.Iterator<StateMachineListener<T, S>> rest,
      RuntimeException failure, java.util.function.Consumer<StateMachineListener<T, S>> what) {
    RuntimeException result = failure;
    while (rest.hasNext()) {
      StateMachineListener<T, S> next = rest.next();
      RuntimeException raised = raisedBy(next, what);
      result = result == null ? raised : suppress(result, raised);
    }
    return result;
  }

  private RuntimeException raisedBy(StateMachineListener<T, S> listener,
      java.util.function.Consumer<StateMachineListener<T, S>> what) {
    RuntimeException raised = null;
    try {
      what.accept(listener);
    } catch (RuntimeException e) {
      raised = e;
    }
    return raised;
  }

  private static RuntimeException suppress(RuntimeException first, RuntimeException next) {
    if (next != null && next != first) {
      first.addSuppressed(next);
    }
    return first;
  }

  private static void fail(RuntimeException failure) {
    if (failure != null) {
      throw failure;
    }
  }
}
'''))

# --- the app's actions are classes of their own and its start is split by mode
a = src(AS)
i = a.index("  private void configureAppStateMachine() {"); j = a.index("  @Override\n  public C getAppContext()")
k = a.index("  /**\n   * This will block the first time"); l = a.index("  @Override\n  public void error(")
ref("n10-as-classes", (AS, None, a[:i] + '''  private void configureAppStateMachine() {
    String appName = appContext.getAppName();
    setStateMachineListener(new LoggingStateMachineListener<>(appName));
    State<C, Void> uninitialised = LifecycleStateMachineUtil.newUnitialisedState();
    State<C, Void> starting = LifecycleStateMachineUtil.newStartingState(guarded(new Starting()));
    State<C, Void> started = LifecycleStateMachineUtil.newStartedState(guarded((ev, sm) -> {
    }));
    State<C, Void> stopping = LifecycleStateMachineUtil.newStoppingState(guarded(new Stopping()));
    State<C, Void> stopped = LifecycleStateMachineUtil.newStoppedState(new Stopped());
    stopped.appendExitActions(new LeavingStopped());
    LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
        started, stopping, stopped);
  }

  private HandleExceptionAction<C, Void> guarded(com.webotech.statemachine.api.StateAction<C, Void> action) {
    return new HandleExceptionAction<>(action, this::onActionFailure);
  }

  private void onActionFailure(StateEvent<Void> event, StateMachine<C, Void> machine, Exception e) {
    logger.error("Error while {} is in [{}] state", appContext.getAppName(), machine.getCurrentState(), e);
    fire(LifecycleStateMachineUtil.evtError);
  }

  private void fire(StateEvent<Void> event) {
    appStateMachine.fire(event);
  }

  private final class Starting implements com.webotech.statemachine.api.StateAction<C, Void> {

    @Override
    public void execute(StateEvent<Void> event, StateMachine<C, Void> machine) {
      logger.info("Starting {} with args {}", appContext.getAppName(), appContext.getInitArgs());
      appContext.getSubsystems().forEach(subsystem -> subsystem.start(appContext));
      fire(LifecycleStateMachineUtil.evtComplete);
    }
  }

  private final class Stopping implements com.webotech.statemachine.api.StateAction<C, Void> {

    @Override
    public void execute(StateEvent<Void> event, StateMachine<C, Void> machine) {
      logger.info("Stopping {}", appContext.getAppName());
      List<Subsystem<C>> all = appContext.getSubsystems();
      for (int last = all.size() - 1; last >= 0; last--) {
        all.get(last).stop(appContext);
      }
      fire(LifecycleStateMachineUtil.evtComplete);
    }
  }

  private final class Stopped implements com.webotech.statemachine.api.StateAction<C, Void> {

    @Override
    public void execute(StateEvent<Void> event, StateMachine<C, Void> machine) {
      logger.info("Stopped {}", appContext.getAppName());
      if (!isExitOnStop) {
        return;
      }
      fire(LifecycleStateMachineUtil.evtStop);
      appLatch.countDown();
    }
  }

  private final class LeavingStopped implements com.webotech.statemachine.api.StateAction<C, Void> {

    @Override
    public void execute(StateEvent<Void> event, StateMachine<C, Void> machine) {
      if (!LifecycleStateMachineUtil.evtStop.equals(event)) {
        return;
      }
      appLatch.countDown();
    }
  }

''' + a[j:k] + '''  /**
   * This will block the first time it is called
   *
   * @throws IllegalStateException if the app state does not permit it to be started
   */
  @Override
  public void start() {
    String state = stateName(getLifecycleState());
    boolean first = !appStateMachine.isStarted();
    if (first) {
      run();
      return;
    }
    if (isExitOnStop || !isStopped(state)) {
      throw new IllegalStateException("Cannot start the app when it's in [" + state + "] state");
    }
    fire(LifecycleStateMachineUtil.evtStart);
  }

  private void run() {
    appStateMachine.start();
    fire(LifecycleStateMachineUtil.evtStart);
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      Thread.currentThread().interrupt();
      if (appStateMachine.isEnded()) {
        return;
      }
      stop();
    }
  }

  private static boolean isStopped(String state) {
    return LifecycleStateMachineUtil.STATE_STOPPED.equals(state);
  }

  /**
   * @throws IllegalStateException if the app state does not permit it to be stopped
   */
  @Override
  public void stop() {
    String state = stateName(getLifecycleState());
    boolean stopped = isStopped(state);
    if (stopped && isExitOnStop) {
      return;
    }
    if (!stopped && !LifecycleStateMachineUtil.STATE_STARTED.equals(state)) {
      throw new IllegalStateException("Cannot stop the app when it's in [" + state + "] state");
    }
    fire(LifecycleStateMachineUtil.evtStop);
  }

''' + a[l:]))

# --- the configuration hands out a finished strategy itself
f = src(F)
ref("n10-f-config-builds", sub(F, ('''    return newDefaultStrategy(config);
''', '''    return config.newStrategy();
'''), ("new DropDuplicateEventStrategy<>(newDefaultStrategy(config))", "new DropDuplicateEventStrategy<>(config.newStrategy())"),
 (f[f.index("  private static <T, S> DefaultEventStrategy<T, S> newDefaultStrategy("):f.index("  /**\n   * Encapsulates")], ""),
 ("    BiConsumer<StateEvent<S>, StateMachine<T, S>> getUnmappedEventHandler() {\n", '''    private DefaultEventStrategy<T, S> newStrategy() {
      BiConsumer<StateEvent<S>, StateMachine<T, S>> handler = getUnmappedEventHandler();
      UnexpectedFlowListener<T, S> flowListener = getUnexpectedFlowListener();
      Queue<EventMachinePair<T, S>> queue = getEventQueue();
      return new DefaultEventStrategy<>(handler, getExecutor(), flowListener, getMaxQueueSize(), queue);
    }

    BiConsumer<StateEvent<S>, StateMachine<T, S>> getUnmappedEventHandler() {
'''), ('''        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
''', '''        unmappedEventHandler = Config::logNotMapped;
'''), ('''    ExecutorService getExecutor() {
      if (executor == null) {
        return Executors.newSingleThreadExecutor(
            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
      }
      return executor;
    }
''', '''    private static <T, S> void logNotMapped(StateEvent<S> event, StateMachine<T, S> machine) {
      String state = machine.getCurrentState().getName();
      logger.info(LOG_EVENT_NOT_MAPPED, event.getName(), state);
    }

    private static void logUncaught(Thread thread, Throwable e) {
      logger.error(LOG_UNHANDLED_EXCEPTION, thread.getName(), e);
    }

    ExecutorService getExecutor() {
      if (executor != null) {
        return executor;
      }
      String name = java.util.Objects.requireNonNullElse(threadName, "state-machine");
      return Executors.newSingleThreadExecutor(
          Threads.newNamedDaemonThreadFactory(name, Config::logUncaught));
    }
''')))

# --- one class for named things: identity by kind and name
ref("n10-named-thing", (P + "Named.java", None, '''package com.webotech.statemachine;

import java.util.Objects;

/** What has a name and is known by it. */
final class Named {

  private final Object owner;
  private final String name;

  Named(Object owner, String name) {
    this.owner = owner;
    this.name = name;
  }

  String name() {
    return name;
  }

  boolean same(Named other) {
    return owner.getClass() == other.owner.getClass() && Objects.equals(name, other.name);
  }

  int hash() {
    return Objects.hashCode(name);
  }

  @Override
  public String toString() {
    return owner.getClass().getSimpleName() + "[" + name + "]";
  }
}
'''), sub(NS, ("  private final String name;\n", "  private final Named identity;\n"), ("    this.name = name;\n", "    this.identity = new Named(this, name);\n"),
  ("    return this.name;\n", "    return identity.name();\n"), ('''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
''', '''    return o instanceof NamedState && identity.same(((NamedState<?, ?>) o).identity);
'''), ("    return Objects.hashCode(name);\n", "    return identity.hash();\n"), ('''    return new StringJoiner(", ", NamedState.class.getSimpleName() + "[", "]")
        .add(name).toString();
''', "    return identity.toString();\n")),
 sub(NE, ("  private final String name;\n", "  private final Named identity;\n"), ("    this.name = name;\n", "    this.identity = new Named(this, name);\n"),
  ("    return this.name;\n", "    return identity.name();\n"), ('''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);
''', '''    return o instanceof NamedStateEvent && identity.same(((NamedStateEvent) o).identity);
'''), ("    return Objects.hashCode(name);\n", "    return identity.hash();\n"), ('''    return new StringJoiner(", ", NamedStateEvent.class.getSimpleName() + "[", "]")
        .add(name).toString();
''', "    return identity.toString();\n")))

# --- the lifecycle table is text
u = src(LU)
ui = u.index("    stateMachine.initialSate(uninitialised)"); uj = u.index("  @SafeVarargs\n  private static <T, S> State<T, S> newState(")
ref("n10-lu-script", (LU, None, u[:ui] + '''    stateMachine.initialSate(uninitialised);
    leads(stateMachine, null, evtStart, starting);
    leads(stateMachine, starting, evtComplete, started);
    leads(stateMachine, starting, evtError, stopped);
    leads(stateMachine, started, evtStop, stopping);
    leads(stateMachine, started, evtError, stopped);
    leads(stateMachine, stopping, evtComplete, stopped);
    leads(stateMachine, stopping, evtError, stopped);
    leads(stateMachine, stopped, evtStart, starting);
    leads(stateMachine, stopped, evtStop, null);
  }

  private static <T> void leads(StateMachine<T, Void> machine, State<T, Void> from,
      StateEvent<Void> on, State<T, Void> to) {
    StateMachine<T, Void> configured = (from == null ? machine : machine.when(from)).receives(on);
    if (to != null) {
      configured.itTransitionsTo(to);
      return;
    }
    configured.itEnds();
  }

''' + u[uj:]))

# --- the pool counts nothing and recycles through an optional
ref("n10-pool-recycle", sub(POOL, ('''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', '''    return java.util.Objects.requireNonNullElseGet(pool.poll(), EventMachinePair::new);
'''), ('''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    java.util.stream.Stream.ofNullable(eventMachinePair).peek(p -> p.setEventMachinePair(null, null)).forEach(pool::add);
''')))
ref("n10-dd-strategy", cut(DD, "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy", "  @Override\n  public void setStates", '''    if (waits(stateEvent)) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
  }

  private boolean waits(StateEvent<S> stateEvent) {
    Queue<EventMachinePair<T, S>> queue = defaultStrategy.getEventQueue();
    return queue.stream()
        .<StateEvent<S>>mapMulti((pair, sink) -> {
          StateEvent<S> waiting = pair.getStateEvent();
          if (waiting != null) {
            sink.accept(waiting);
          }
        })
        .anyMatch(waiting -> stateEvent.equals(waiting));
  }

'''))
ref("n10-all", *merge("n10-gsm-phase", "n10-tt-transition", "n10-ds-channel", "n10-mc-recursive", "n10-as-classes", "n10-f-config-builds", "n10-named-thing", "n10-lu-script", "n10-pool-recycle", "n10-dd-strategy"))
