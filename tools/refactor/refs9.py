"""A ninth set: whole classes rewritten once more (status snapshots, setting holders, work-in-progress counters, generic helpers)."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
from refs8 import src, P
R = []
def ref(name, *edits): R.append((name, edits))
def sub(f, *pairs):
    s = src(f)
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    return (f, None, s)
def cut(f, a, b, new):
    s = src(f)
    i = s.index(a); j = s.index(b, i)
    return (f, None, s[:i] + new + s[j:])

BEGIN_IN = '''  /* The current state and the flags change together so that a stop is never undone by a start */
  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
  }
'''
FIELDS = "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n"
UPD = "  public synchronized void updateCurrentState(State<T, S> state) {\n    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }\n  }\n"
INIT = "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n"
QS = "    return isStarted.get();\n  }\n\n  @Override\n  public boolean isEnded"
# one immutable snapshot, replaced in a retry loop
ref("m9-gsm-snapshot-retry", sub(G, (FIELDS, '''  private record Status<T, S>(State<T, S> state, boolean started, boolean ended) {

    Status<T, S> begun(State<T, S> in) {
      return new Status<>(in, true, false);
    }

    Status<T, S> moved(State<T, S> to, boolean last) {
      return new Status<>(to, started, last);
    }
  }

  private final java.util.concurrent.atomic.AtomicReference<Status<T, S>> status =
      new java.util.concurrent.atomic.AtomicReference<>(new Status<>(null, false, false));
'''), ("  private volatile State<T, S> currentState;\n", ""), (INIT, ""), ("import java.util.concurrent.atomic.AtomicBoolean;\n", ""),
  (BEGIN_IN, '''  private boolean beginIn(State<T, S> state) {
    while (true) {
      Status<T, S> now = status.get();
      if (now.started()) {
        return false;
      }
      if (status.compareAndSet(now, now.begun(state))) {
        return true;
      }
    }
  }
'''), (QS, QS.replace("isStarted.get()", "status.get().started()", 1)), ("    return isEnded.get();\n", "    return status.get().ended();\n"),
  ("    return this.currentState;\n", "    return status.get().state();\n"),
  (UPD, '''  public void updateCurrentState(State<T, S> state) {
    boolean last = state.equals(endState);
    Status<T, S> now;
    do {
      now = status.get();
      if (now.ended()) {
        return;
      }
    } while (!status.compareAndSet(now, now.moved(state, last)));
  }
'''), ('.add("currentState=" + currentState)', '.add("currentState=" + getCurrentState())')))
# everything under one explicit lock, readers included
ref("m9-gsm-one-lock", sub(G, (FIELDS, '''  private final java.util.concurrent.locks.Lock lock = new java.util.concurrent.locks.ReentrantLock();
  private boolean started;
  private boolean ended;
'''), ("  private volatile State<T, S> currentState;\n", "  private State<T, S> currentState;\n"), (INIT, ""), ("import java.util.concurrent.atomic.AtomicBoolean;\n", ""),
  (BEGIN_IN, '''  private <R> R locked(java.util.function.Supplier<R> action) {
    lock.lock();
    try {
      return action.get();
    } finally {
      lock.unlock();
    }
  }

  private boolean beginIn(State<T, S> state) {
    return locked(() -> {
      boolean fresh = !started;
      if (fresh) {
        started = true;
        ended = false;
        currentState = state;
      }
      return fresh;
    });
  }
'''), (QS, QS.replace("isStarted.get()", "locked(() -> started)", 1)), ("    return isEnded.get();\n", "    return locked(() -> ended);\n"),
  ("    return this.currentState;\n", "    return locked(() -> currentState);\n"),
  (UPD, '''  public void updateCurrentState(State<T, S> state) {
    locked(() -> {
      if (!ended) {
        currentState = state;
        ended = state.equals(endState);
      }
      return null;
    });
  }
'''), ('.add("currentState=" + currentState)', '.add("currentState=" + getCurrentState())')))
# the table is a class of its own with all the rules of the configuration
g = src(G)
CI, CJ = g.index('  @SuppressWarnings("hiding")'), g.index("  public void notifyStateMachineListener(")
ref("m9-gsm-config-object", (P + "Configuration.java", None, '''package com.webotech.statemachine;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import java.util.HashMap;
import java.util.Map;
import java.util.Optional;

/** Collects the outcomes of events and rejects what makes no sense. */
final class Configuration<T, S> {

  private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table;
  private State<T, S> initial;
  private State<T, S> openState;
  private StateEvent<S> openEvent;

  Configuration(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table) {
    this.table = table;
  }

  Optional<State<T, S>> initial() {
    return Optional.ofNullable(initial);
  }

  void begin(State<T, S> state) {
    refuseIf(initial != null, "An initial State already exists.");
    initial = state;
    table.put(state, new HashMap<>());
  }

  void open(State<T, S> state) {
    requireInitial();
    refuseIf(openState != null, "A StateEvent has to be defined first.");
    table.computeIfAbsent(state, s -> new HashMap<>());
    openState = state;
  }

  void event(StateEvent<S> event) {
    requireOpen();
    openEvent = event;
    row().putIfAbsent(event, null);
  }

  boolean hasEvent() {
    return openEvent != null;
  }

  void endImmediately(StateEvent<S> immediate, State<T, S> end) {
    requireOpen();
    refuseIf(!row().isEmpty(), "It is not possible to immediately end, transitions for the State exist.");
    row().put(immediate, end);
    close();
  }

  void outcome(State<T, S> target) {
    requireOpen();
    refuseIf(openEvent == null, "A StateEvent has to be defined first using receives().");
    refuseIf(row().get(openEvent) != null, "The StateEvent already has an outcome.");
    row().put(openEvent, target);
    close();
  }

  void requireOpen() {
    requireInitial();
    refuseIf(openState == null, "A state has to be marked to be configured using when().");
  }

  void requireInitial() {
    refuseIf(initial == null, "An initial State has to be defined first.");
  }

  private void close() {
    openState = null;
    openEvent = null;
  }

  private Map<StateEvent<S>, State<T, S>> row() {
    return table.get(openState);
  }

  private static void refuseIf(boolean wrong, String why) {
    if (wrong) {
      throw new IllegalStateException(why);
    }
  }
}
'''), (G, None, (g[:CI] + '''  @SuppressWarnings("hiding")
  @Override
  public StateMachine<T, S> initialSate(State<T, S> initState) {
    assertNotReservedState(initState);
    configuration.begin(initState);
    for (State<T, S> reserved : List.of(endState, noState, noopState)) {
      states.put(reserved, noTransitionMap);
    }
    return when(initState);
  }

  @Override
  public StateMachine<T, S> when(State<T, S> state) {
    assertNotReservedState(state);
    configuration.open(state);
    return this;
  }

  @Override
  public StateMachine<T, S> receives(StateEvent<S> stateEvent) {
    if (immediateEvent.getName().equals(stateEvent.getName())) {
      throw new IllegalStateException("Invalid StateEvent [" + stateEvent.getName() + "] is using a reserved name.");
    }
    configuration.event(stateEvent);
    return this;
  }

  @Override
  public StateMachine<T, S> itEnds() {
    if (configuration.hasEvent()) {
      configuration.outcome(endState);
    } else {
      configuration.endImmediately(immediateEvent, endState);
    }
    return this;
  }

  @Override
  public StateMachine<T, S> itTransitionsTo(State<T, S> state) {
    assertNotReservedState(state);
    configuration.outcome(state);
    return this;
  }

  @Override
  public StateMachine<T, S> itDoesNotTransition() {
    configuration.outcome(noopState);
    return this;
  }

  private void assertNotReservedState(State<T, S> state) {
    if (reservedStateNames.contains(state.getName())) {
      throw new IllegalStateException("Invalid state [" + state.getName() + "] is using a reserved name.");
    }
  }

''' + g[CJ:]).replace("    assertInitStateDefined(true);\n    if (this.states.isEmpty()) {\n", "    configuration.requireInitial();\n    State<T, S> initState = configuration.initial().get();\n    if (this.states.isEmpty()) {\n")
  .replace("  private State<T, S> initState;\n  private State<T, S> markedState;\n  private StateEvent<S> markedEvent;\n", "  private final Configuration<T, S> configuration;\n")
  .replace("    this.states = states;\n", "    this.states = states;\n    this.configuration = new Configuration<>(states);\n").replace("import java.util.HashMap;\n", "import java.util.HashMap;\n")))
# at most one drain is scheduled; a counter of unfinished work decides
D0 = "    executor.execute(() -> {\n"
ds = src(DS)
di = ds.index(D0); dj = ds.index("  @Override\n  public void setStates(")
ref("m9-ds-static-drain", (DS, None, ds[:di] + '''    executor.execute(drainOf(stateMachine));
  }

  private Runnable drainOf(GenericStateMachine<T, S> owner) {
    return () -> {
      EventMachinePair<T, S> pair;
      while ((pair = eventQueue.poll()) != null) {
        handle(pair, !owner.isEnded());
      }
    };
  }

  private void handle(EventMachinePair<T, S> pair, boolean live) {
    StateEvent<S> event = pair.getStateEvent();
    GenericStateMachine<T, S> machine = pair.getStateMachine();
    try {
      if (live) {
        transitionTask.execute(event, machine);
      }
    } catch (Exception e) {
      Thread thread = Thread.currentThread();
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, thread, e);
    } finally {
      eventMachinePairPool.give(pair);
    }
  }

''' + ds[dj:]))
# settings with a default
f = src(F)
fi = f.index("    private BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;"); fj = f.index("  }\n}\n", fi)
ref("m9-f-settings", (F, None, f[:fi] + '''    private final Setting<BiConsumer<StateEvent<S>, StateMachine<T, S>>> handler = new Setting<>(
        () -> (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(), sm.getCurrentState().getName()), true);
    private final Setting<String> name = new Setting<>(() -> null, false);
    private final Setting<ExecutorService> executor = new Setting<>(this::ownExecutor, false);
    private final Setting<UnexpectedFlowListener<T, S>> listener = new Setting<>(DefaultUnexpectedFlowListener::new, true);
    private final Setting<Queue<EventMachinePair<T, S>>> queue = new Setting<>(ConcurrentLinkedQueue::new, false);
    private final Setting<Integer> bound = new Setting<>(() -> -1, true);

    private static final class Setting<V> {

      private final java.util.function.Supplier<V> byDefault;
      private final boolean keep;
      private V value;

      Setting(java.util.function.Supplier<V> byDefault, boolean keep) {
        this.byDefault = byDefault;
        this.keep = keep;
      }

      void set(V value) {
        this.value = value;
      }

      V get() {
        if (value != null) {
          return value;
        }
        V made = byDefault.get();
        if (keep) {
          value = made;
        }
        return made;
      }
    }

    private ExecutorService ownExecutor() {
      String prefix = name.get() == null ? "state-machine" : name.get();
      return Executors.newSingleThreadExecutor(Threads.newNamedDaemonThreadFactory(prefix,
          (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
    }

    public Config<T, S> withExecutor(ExecutorService executor) {
      this.executor.set(executor);
      return this;
    }

    public Config<T, S> withUnmappedEventHandler(
        BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler) {
      handler.set(unmappedEventHandler);
      return this;
    }

    public Config<T, S> withUnexpectedFlowListener(
        UnexpectedFlowListener<T, S> unexpectedFlowListener) {
      listener.set(unexpectedFlowListener);
      return this;
    }

    public Config<T, S> withEventQueue(Queue<EventMachinePair<T, S>> eventQueue) {
      queue.set(eventQueue);
      return this;
    }

    public Config<T, S> withMaxQueueSize(int maxQueueSize) {
      bound.set(maxQueueSize);
      return this;
    }

    public Config<T, S> withThreadName(String threadName) {
      name.set(threadName);
      return this;
    }

    BiConsumer<StateEvent<S>, StateMachine<T, S>> getUnmappedEventHandler() {
      return handler.get();
    }

    ExecutorService getExecutor() {
      return executor.get();
    }

    UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
      return listener.get();
    }

    int getMaxQueueSize() {
      return bound.get();
    }

    String getThreadName() {
      return name.get();
    }

    Queue<EventMachinePair<T, S>> getEventQueue() {
      return queue.get();
    }
''' + f[fj:]))
# listeners: an announcement object
mc = src(MC)
mi = mc.index("  @Override\n  public void onStateChangeBegin(")
ref("m9-mc-announcement", (MC, None, mc[:mi] + '''  @Override
  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    new Announcement<>(fromState, event, toState, false).toAll(consumers.values());
  }

  @Override
  public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    new Announcement<>(fromState, event, toState, true).toAll(consumers.values());
  }

  private record Announcement<T, S>(State<T, S> from, StateEvent<S> event, State<T, S> to, boolean complete) {

    void toAll(java.util.Collection<StateMachineListener<T, S>> listeners) {
      RuntimeException first = null;
      for (StateMachineListener<T, S> listener : listeners) {
        RuntimeException next = failureOf(listener);
        if (first == null) {
          first = next;
        } else if (next != null && next != first) {
          first.addSuppressed(next);
        }
      }
      if (first != null) {
        throw first;
      }
    }

    private RuntimeException failureOf(StateMachineListener<T, S> listener) {
      try {
        if (complete) {
          listener.onStateChangeEnd(from, event, to);
        } else {
          listener.onStateChangeBegin(from, event, to);
        }
        return null;
      } catch (RuntimeException e) {
        return e;
      }
    }
  }
}
'''))
# logging with suppliers and two formatters
ll = src(LL)
li = ll.index("  private void logChange(")
ref("m9-ll-formatters", (LL, None, ll[:li] + '''  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,
      State<T, S> newState) {
    boolean named = !(name == null || name.isEmpty());
    String template = isComplete ? named ? LOG_TRANSITIONED_NAMED : LOG_TRANSITIONED
        : named ? LOG_BEGIN_TRANSITION_NAMED : LOG_BEGIN_TRANSITION;
    java.util.List<Object> parts = new java.util.ArrayList<>();
    if (named) {
      parts.add(name);
    }
    if (!isComplete) {
      parts.add(oldState.getName());
      parts.add(event.getName());
    }
    parts.add(newState.getName());
    logger.info(template, parts.toArray());
  }
}
'''))
du = src(DU)
ui = du.index("  @Override\n  public void onExceptionDuring")
ref("m9-du-log", (DU, None, du[:ui] + '''  @Override
  public void onExceptionDuringEventProcessing(StateEvent<S> stateEvent,
      StateMachine<T, S> stateMachine, Thread thread, Exception e) {
    State<T, S> where = stateMachine.getCurrentState();
    String message = "Unhandled exception while processing event " + stateEvent + " while in state " + where
        + " on thread [" + thread.getName() + "]";
    logger.error(message, e);
  }

  @Override
  public void onEventAfterMachineEnd(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    unexpected(stateEvent, "after state machine has ended");
  }

  @Override
  public void onEventBeforeMachineStart(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    unexpected(stateEvent, "before state machine has started");
  }

  private void unexpected(StateEvent<S> event, String when) {
    logger.warn("Event {} received {}", event, when);
  }
}
'''.replace("    State<T, S> where", "    Object where")))
# the context in one immutable settings record behind a reference
ac = src(AC)
ref("m9-ac-record", sub(AC, ("  private final AtomicReference<String> appThreadNameRef;\n  private final AtomicReference<List<Subsystem<C>>> subsystemsRef;\n", '''  private record Settings<S>(String threadName, List<S> subsystems) {

    Settings<S> named(String name) {
      return new Settings<>(name, subsystems);
    }

    Settings<S> with(List<S> all) {
      return new Settings<>(threadName, all);
    }
  }

  private final AtomicReference<Settings<Subsystem<C>>> settings = new AtomicReference<>(
      new Settings<>("app", List.of()));
'''), ('    this.appThreadNameRef = new AtomicReference<>("app");\n', ""), ("    this.subsystemsRef = new AtomicReference<>(List.of());\n", ""),
  ("    subsystemsRef.set(subsystems);\n", "    settings.updateAndGet(s -> s.with(subsystems));\n"), ("    appThreadNameRef.set(appThreadName);\n", "    settings.updateAndGet(s -> s.named(appThreadName));\n"),
  ("    return subsystemsRef.get();\n", "    return settings.get().subsystems();\n"), ("    return appThreadNameRef.get();\n", "    return settings.get().threadName();\n")))
# threads: the factory is a lambda over a numbering object
th = src(TH)
ti = th.index("  public static ThreadFactory newNamedDaemonThreadFactory(final String threadName,\n")
ref("m9-th-numbering", (TH, None, th[:ti] + '''  private static final class Numbering {

    private static final Numbering SHARED = new Numbering();
    private final AtomicInteger next = new AtomicInteger();

    String name(String prefix) {
      return prefix + '-' + next.getAndIncrement();
    }
  }

  public static ThreadFactory newNamedDaemonThreadFactory(final String threadName,
      UncaughtExceptionHandler uncaughtExceptionHandler) {
    return runnable -> daemon(runnable, Numbering.SHARED.name(threadName), uncaughtExceptionHandler);
  }

  public static ThreadFactory newNamedDaemonThreadFactory(final String threadName) {
    return newNamedDaemonThreadFactory(threadName, null);
  }

  private static Thread daemon(Runnable runnable, String name, UncaughtExceptionHandler handler) {
    Thread thread = new Thread(runnable, name);
    thread.setUncaughtExceptionHandler(handler);
    thread.setDaemon(true);
    return thread;
  }
}
'''))
# the life cycle as data
lu = src(LU)
ui = lu.index("    stateMachine.initialSate(uninitialised)"); uj = lu.index("  }\n", ui)
ref("m9-lu-data", (LU, None, lu[:ui] + '''    stateMachine.initialSate(uninitialised).receives(evtStart).itTransitionsTo(starting);
    List<State<T, Void>> active = List.of(starting, started, stopping);
    List<StateEvent<Void>> proceeds = List.of(evtComplete, evtStop, evtComplete);
    List<State<T, Void>> next = List.of(started, stopping, stopped);
    for (int i = 0; i < active.size(); i++) {
      State<T, Void> state = active.get(i);
      stateMachine.when(state).receives(proceeds.get(i)).itTransitionsTo(next.get(i));
      stateMachine.when(state).receives(evtError).itTransitionsTo(stopped);
    }
    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting).when(stopped).receives(evtStop).itEnds();
''' + lu[uj:].replace("", "")))
R[-1] = (R[-1][0], [(LU, None, R[-1][1][0][2].replace("import com.webotech.statemachine.api.StateMachine;\n", "import com.webotech.statemachine.api.StateMachine;\nimport java.util.List;\n", 1))])
# the service: phases as an enum of the service with the handling of failures around
a = src(AS)
i = a.index("    ExceptionHandler<C, Void> exceptionHandler = "); j = a.index("    stopped.appendExitActions(")
ref("m9-as-supplier-phases", (AS, None, a[:i] + '''    ExceptionHandler<C, Void> exceptionHandler = new FailedPhase(appName);
    State<C, Void> uninitialised = LifecycleStateMachineUtil.newUnitialisedState();
    State<C, Void> starting = LifecycleStateMachineUtil.newStartingState();
    State<C, Void> started = LifecycleStateMachineUtil.newStartedState();
    State<C, Void> stopping = LifecycleStateMachineUtil.newStoppingState();
    State<C, Void> stopped = LifecycleStateMachineUtil.newStoppedState();
    starting.appendEntryActions(new HandleExceptionAction<>((ev, sm) -> {
      logger.info("Starting {} with args {}", appName, appContext.getInitArgs());
      eachSubsystem(false, s -> s.start(appContext));
    }, exceptionHandler));
    stopping.appendEntryActions(new HandleExceptionAction<>((ev, sm) -> {
      logger.info("Stopping {}", appName);
      eachSubsystem(true, s -> s.stop(appContext));
    }, exceptionHandler));
    stopped.appendEntryActions((ev, sm) -> logger.info("Stopped {}", appName));
    if (isExitOnStop) {
      stopped.appendEntryActions((ev, sm) -> {
        sm.fire(LifecycleStateMachineUtil.evtStop);
        appLatch.countDown();
      });
    }

''' + a[j:].replace('''  @Override
  public C getAppContext() {
''', '''  private final class FailedPhase implements ExceptionHandler<C, Void> {

    private final String app;

    FailedPhase(String app) {
      this.app = app;
    }

    @Override
    public void onException(StateEvent<Void> event, StateMachine<C, Void> machine, Exception e) {
      logger.error("Error while {} is in [{}] state", app, machine.getCurrentState(), e);
      machine.fire(LifecycleStateMachineUtil.evtError);
    }
  }

  private void eachSubsystem(boolean backwards, java.util.function.Consumer<Subsystem<C>> what) {
    List<Subsystem<C>> subsystems = appContext.getSubsystems();
    int n = subsystems.size();
    for (int k = 0; k < n; k++) {
      what.accept(subsystems.get(backwards ? n - 1 - k : k));
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  @Override
  public C getAppContext() {
''', 1).replace("import java.util.ListIterator;\n", "")))
# handled exceptions through a small result type
ref("m9-he-attempt", sub(HE, ('''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    attempt(stateEvent, stateMachine).ifPresent(e -> exceptionHandler.onException(stateEvent, stateMachine, e));
  }

  private java.util.Optional<Exception> attempt(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    Exception thrown = null;
    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      thrown = e;
    }
    return java.util.Optional.ofNullable(thrown);
''')))
def merge(*names):
    e = []
    for n in names: e += dict(R)[n]
    return e
ref("m9-all", *merge("m9-gsm-config-object", "m9-ds-static-drain", "m9-f-settings", "m9-mc-announcement", "m9-ll-formatters", "m9-du-log", "m9-ac-record", "m9-th-numbering", "m9-lu-data", "m9-as-supplier-phases", "m9-he-attempt"))
