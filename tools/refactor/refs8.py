"""An eighth set: whole classes rewritten (superclass extracted, collaborators introduced, everything renamed)."""
import re
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP, M
R = []
def ref(name, *edits): R.append((name, edits))
def src(f): return open("/repo/" + f).read()
P = G[:G.rindex("/") + 1]

# --- GenericStateMachine: the configuration part becomes a superclass
g = src(G)
conf_start = g.index('  @SuppressWarnings("hiding")')
conf_end = g.index("  public void notifyStateMachineListener(")
conf = g[conf_start:conf_end]
SUPER = '''package com.webotech.statemachine;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.Collections;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** The part of a state machine that is there to configure it. */
abstract class ConfigurableStateMachine<T, S> implements StateMachine<T, S> {

  static final List<String> reservedStateNames = List.of("_UNINITIALISED_", "_END_", "_NOOP_");
  protected final Map<StateEvent<S>, State<T, S>> noTransitionMap = Collections.emptyMap();
  protected final StateEvent<S> immediateEvent;
  protected final State<T, S> noState = new NamedState<>("_UNINITIALISED_");
  protected final State<T, S> endState = new NamedState<>("_END_");
  protected final State<T, S> noopState = new NamedState<>("_NOOP_");
  protected final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;
  protected State<T, S> initState;
  private State<T, S> markedState;
  private StateEvent<S> markedEvent;

  protected ConfigurableStateMachine(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states, String immediate) {
    this.states = states;
    this.immediateEvent = new NamedStateEvent<>(immediate);
  }

''' + conf.replace("private void assertInitStateDefined", "protected void assertInitStateDefined") + "}\n"
rest = g[:conf_start] + g[conf_end:]
for l in ['''  private final Map<StateEvent<S>, State<T, S>> noTransitionMap;
  private final StateEvent<S> immediateEvent;
  private final State<T, S> noState;
  private final State<T, S> endState;
  private final State<T, S> noopState;
  private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;
''', '''  private State<T, S> initState;
  private State<T, S> markedState;
  private StateEvent<S> markedEvent;
''', '''    this.endState = new NamedState<>(RESERVED_STATE_NAME_END);
    this.noState = new NamedState<>(RESERVED_STATE_NAME_UNINITIALISED);
    this.noopState = new NamedState<>(RESERVED_STATE_NAME_NOOP);
    this.noTransitionMap = Collections.emptyMap();
''', '''    this.immediateEvent = new NamedStateEvent<>(RESERVED_STATE_EVENT_NAME_IMMEDIATE);
''', '''  static final List<String> reservedStateNames = List.of(RESERVED_STATE_NAME_UNINITIALISED,
      RESERVED_STATE_NAME_END, RESERVED_STATE_NAME_NOOP);
''']:
    assert rest.count(l) == 1, l
    rest = rest.replace(l, "")
rest = rest.replace("    this.states = states;\n", "    super(states, RESERVED_STATE_EVENT_NAME_IMMEDIATE);\n").replace("public class GenericStateMachine<T, S> implements StateMachine<T, S> {", "public class GenericStateMachine<T, S> extends ConfigurableStateMachine<T, S> {")
ref("l8-gsm-superclass", (P + "ConfigurableStateMachine.java", None, SUPER), (G, None, rest))

# --- GenericStateMachine: the running part becomes a collaborator
rs = g.index("  @Override\n  public void start() {")
RUN = '''  /** What changes while the machine runs. */
  private static final class Progress<T, S> {

    private enum Phase { CREATED, RUNNING, FINISHED }

    private Phase phase = Phase.CREATED;
    private State<T, S> position;

    synchronized boolean enter(State<T, S> state) {
      if (phase == Phase.RUNNING || phase == Phase.FINISHED && everStarted) {
        return false;
      }
      everStarted = true;
      position = state;
      phase = Phase.RUNNING;
      return true;
    }

    private boolean everStarted;

    synchronized void advance(State<T, S> state, boolean last) {
      if (phase == Phase.FINISHED) {
        return;
      }
      position = state;
      if (last) {
        phase = Phase.FINISHED;
      }
    }

    synchronized boolean started() {
      return everStarted;
    }

    synchronized boolean finished() {
      return phase == Phase.FINISHED;
    }

    synchronized State<T, S> position() {
      return position;
    }
  }

'''
g2 = g
for a, b in [
 ("  private volatile State<T, S> currentState;\n", "  private final Progress<T, S> progress = new Progress<>();\n"),
 ("  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n", ""),
 ("    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", ""),
 ("import java.util.concurrent.atomic.AtomicBoolean;\n", ""),
 ('''  /* The current state and the flags change together so that a stop is never undone by a start */
  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
  }

''', RUN),
 ("    if (beginIn(initState)) {\n", "    if (progress.enter(initState)) {\n"),
 ("    if (!beginIn(state)) {\n", "    if (!progress.enter(state)) {\n"),
 ("    return isStarted.get();\n  }\n\n  @Override\n  public boolean isEnded", "    return progress.started();\n  }\n\n  @Override\n  public boolean isEnded"),
 ("    return isEnded.get();\n", "    return progress.finished();\n"),
 ("    return this.currentState;\n", "    return progress.position();\n"),
 ("  public synchronized void updateCurrentState(State<T, S> state) {\n    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }\n", "  public void updateCurrentState(State<T, S> state) {\n    progress.advance(state, state.equals(endState));\n"),
 ('.add("currentState=" + currentState)', '.add("currentState=" + progress.position())')]:
    assert g2.count(a) == 1, a
    g2 = g2.replace(a, b)
# a stop before the start is undone by the start, as before
g2 = g2.replace("      if (phase == Phase.RUNNING || phase == Phase.FINISHED && everStarted) {\n", "      if (everStarted) {\n")
ref("l8-gsm-progress", (G, None, g2))

# --- DefaultEventStrategy, rewritten
ds = src(DS)
head = ds[:ds.index("public class DefaultEventStrategy")]
ref("l8-ds-rewritten", (DS, None, head + '''public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S> {

  private static final int UNBOUND = 0;
  private final TransitionTask<T, S> task;
  private final EventMachinePairPool<T, S> carriers;
  private final UnexpectedFlowListener<T, S> reports;
  private final Queue<EventMachinePair<T, S>> waiting;
  private final ExecutorService worker;
  private final int limit;

  public DefaultEventStrategy(BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler,
      ExecutorService executor, UnexpectedFlowListener<T, S> unexpectedFlowListener,
      int maxQueueSize, Queue<EventMachinePair<T, S>> eventQueue) {
    this(unmappedEventHandler, executor, unexpectedFlowListener, new EventMachinePairPool<>(),
        maxQueueSize, eventQueue);
  }

  DefaultEventStrategy(BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler,
      ExecutorService executor, UnexpectedFlowListener<T, S> unexpectedFlowListener,
      EventMachinePairPool<T, S> eventMachinePairPool, int maxQueueSize,
      Queue<EventMachinePair<T, S>> eventQueue) {
    limit = Math.max(maxQueueSize, UNBOUND);
    worker = executor;
    waiting = eventQueue;
    reports = unexpectedFlowListener;
    carriers = eventMachinePairPool;
    task = new TransitionTask<>(unmappedEventHandler);
  }

  @Override
  public void processEvent(StateEvent<S> fired, GenericStateMachine<T, S> target) {
    final int size = getEventQueueSize();
    if (limit == UNBOUND || size < limit) {
      accept(fired, target);
    } else {
      reject(fired, target, "Queue size is maxed out at " + size + " - dropping event");
    }
  }

  private void accept(StateEvent<S> fired, GenericStateMachine<T, S> target) {
    final EventMachinePair<T, S> carrier = carriers.take();
    carrier.setEventMachinePair(independentOf(fired), target);
    if (waiting.offer(carrier)) {
      worker.execute(() -> processWaiting(target));
    } else {
      carriers.give(carrier);
      reject(fired, target, "The event queue refused the event - dropping event");
    }
  }

  private StateEvent<S> independentOf(StateEvent<S> fired) {
    return fired instanceof NamedStateEvent ? new NamedStateEvent<>(fired) : fired;
  }

  private void reject(StateEvent<S> fired, GenericStateMachine<T, S> target, String reason) {
    reports.onExceptionDuringEventProcessing(fired, target, Thread.currentThread(),
        new IllegalStateException(reason));
  }

  private void processWaiting(GenericStateMachine<T, S> target) {
    for (EventMachinePair<T, S> next = waiting.poll(); next != null; next = waiting.poll()) {
      process(next, target);
    }
  }

  private void process(EventMachinePair<T, S> carrier, GenericStateMachine<T, S> target) {
    final StateEvent<S> event = carrier.getStateEvent();
    final GenericStateMachine<T, S> machine = carrier.getStateMachine();
    try {
      if (target.isEnded()) {
        return;
      }
      task.execute(event, machine);
    } catch (Exception failure) {
      reports.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), failure);
    } finally {
      carriers.give(carrier);
    }
  }

  @Override
  public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
    task.setStates(states);
  }

  @Override
  public int getEventQueueSize() {
    return waiting.size();
  }

  @Override
  public UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
    return reports;
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {
    return waiting;
  }
}
'''))

# --- TransitionTask, rewritten around one object per transition
tt = src(TT)
ref("l8-tt-rewritten", (TT, None, tt[:tt.index("public class TransitionTask")] + '''public class TransitionTask<T, S> {

  private final BiConsumer<StateEvent<S>, StateMachine<T, S>> unmapped;
  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> table;

  public TransitionTask(BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler) {
    unmapped = unmappedEventHandler;
  }

  public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
    table = states;
  }

  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    final State<T, S> source = machine.getCurrentState();
    final State<T, S> target = table.get(source).get(event);
    if (target == null) {
      unmapped.accept(event, machine);
    } else {
      final Transition transition = new Transition(machine, source, event, target);
      transition.announce(false);
      if (!machine.getNoopState().equals(target)) {
        transition.perform();
        transition.announce(true);
        transition.endIfDone();
      } else {
        transition.announce(true);
      }
    }
  }

  private final class Transition {

    private final GenericStateMachine<T, S> machine;
    private final State<T, S> source;
    private final StateEvent<S> event;
    private final State<T, S> target;

    Transition(GenericStateMachine<T, S> machine, State<T, S> source, StateEvent<S> event,
        State<T, S> target) {
      this.machine = machine;
      this.source = source;
      this.event = event;
      this.target = target;
    }

    void announce(boolean complete) {
      machine.notifyStateMachineListener(complete, machine.getNoopState().equals(target) ? machine.getCurrentState() : source, event, target);
    }

    void perform() {
      machine.getCurrentState().onExit(event, machine);
      machine.updateCurrentState(target);
      machine.getCurrentState().onEntry(event, machine);
    }

    void endIfDone() {
      final Map<StateEvent<S>, State<T, S>> row = table.get(target);
      final boolean open = row != null && !machine.getEndState().equals(row.get(machine.getImmediateEvent()));
      if (!open) {
        machine.stop();
      }
    }
  }
}
'''))

# --- AbstractAppService: machine and latch in one collaborator, the phases in another
a = src(AS)
i, j = a.index("  private void configureAppStateMachine() {"), a.index("  @Override\n  public C getAppContext()")
ref("l8-as-phases", (AS, None, a[:i] + '''  private void configureAppStateMachine() {
    setStateMachineListener(new LoggingStateMachineListener<>(appContext.getAppName()));
    State<C, Void> stopped = LifecycleStateMachineUtil.newStoppedState((evt, sm) -> whenStopped());
    stopped.appendExitActions((evt, sm) -> {
      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
        appLatch.countDown();
      }
    });
    LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine,
        LifecycleStateMachineUtil.newUnitialisedState(),
        LifecycleStateMachineUtil.newStartingState(guarded(this::startSubsystems)),
        LifecycleStateMachineUtil.newStartedState(guarded(() -> { })),
        LifecycleStateMachineUtil.newStoppingState(guarded(this::stopSubsystems)),
        stopped);
  }

  private HandleExceptionAction<C, Void> guarded(Runnable phase) {
    return new HandleExceptionAction<>((evt, sm) -> phase.run(), this::phaseFailed);
  }

  private void phaseFailed(StateEvent<Void> evt, StateMachine<C, Void> sm, Exception e) {
    logger.error("Error while {} is in [{}] state", appContext.getAppName(), sm.getCurrentState(), e);
    fire(LifecycleStateMachineUtil.evtError);
  }

  private void startSubsystems() {
    logger.info("Starting {} with args {}", appContext.getAppName(), appContext.getInitArgs());
    appContext.getSubsystems().forEach(subsystem -> subsystem.start(appContext));
    fire(LifecycleStateMachineUtil.evtComplete);
  }

  private void stopSubsystems() {
    logger.info("Stopping {}", appContext.getAppName());
    List<Subsystem<C>> all = appContext.getSubsystems();
    for (int i = all.size(); i-- > 0; ) {
      all.get(i).stop(appContext);
    }
    fire(LifecycleStateMachineUtil.evtComplete);
  }

  private void whenStopped() {
    logger.info("Stopped {}", appContext.getAppName());
    if (!isExitOnStop) {
      return;
    }
    fire(LifecycleStateMachineUtil.evtStop);
    appLatch.countDown();
  }

  private void fire(StateEvent<Void> event) {
    appStateMachine.fire(event);
  }

''' + a[j:].replace("    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n", "").replace("    appStateMachine.fire(evtError);\n", "    fire(LifecycleStateMachineUtil.evtError);\n").replace("appStateMachine.fire(LifecycleStateMachineUtil.", "fire(LifecycleStateMachineUtil.").replace("      //re-start the app\n", "")))

# --- MultiConsumerStateMachineListener: one method with the side as a parameter, a collector for failures
m = src(MC)
i = m.index("  @Override\n  public void onStateChangeBegin(")
ref("l8-mc-collector", (MC, None, m[:i] + '''  @Override
  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    tellAll(listener -> listener.onStateChangeBegin(fromState, event, toState));
  }

  @Override
  public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
    tellAll(listener -> listener.onStateChangeEnd(fromState, event, toState));
  }

  private void tellAll(java.util.function.Consumer<StateMachineListener<T, S>> message) {
    java.util.Deque<RuntimeException> failures = new java.util.ArrayDeque<>();
    consumers.keySet().forEach(listener -> {
      try {
        message.accept(listener);
      } catch (RuntimeException e) {
        failures.add(e);
      }
    });
    if (failures.isEmpty()) {
      return;
    }
    RuntimeException first = failures.poll();
    failures.stream().filter(e -> e != first).forEach(first::addSuppressed);
    throw first;
  }
}
'''))

# --- NamedState: both lists in one holder that runs itself
n = src(NS)
i = n.index("  @Override\n  public void onEntry("); j = n.index("  @Override\n  public String getName()")
ref("l8-ns-sequences", (NS, None, n[:n.index("  private final List<StateAction<T, S>> entryActions;")] + '''  private final Sequence<T, S> entry = new Sequence<>();
  private final Sequence<T, S> exit = new Sequence<>();

  public NamedState(String name) {
    this.name = name;
  }

  private static final class Sequence<T, S> implements StateAction<T, S> {

    private final List<StateAction<T, S>> steps = new ArrayList<>();

    void append(StateAction<T, S>[] more) {
      for (StateAction<T, S> step : more) {
        if (Objects.isNull(step)) {
          continue;
        }
        steps.add(step);
      }
    }

    @Override
    public void execute(StateEvent<S> event, StateMachine<T, S> machine) {
      for (StateAction<T, S> step : steps) {
        step.execute(event, machine);
      }
    }
  }

  @Override
  public void onEntry(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    entry.execute(stateEvent, stateMachine);
  }

  @Override
  public void onExit(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    exit.execute(stateEvent, stateMachine);
  }

  @SuppressWarnings("unchecked")
  @Override
  public void appendEntryActions(StateAction<T, S>... actions) {
    entry.append(actions);
  }

  @SuppressWarnings("unchecked")
  @Override
  public void appendExitActions(StateAction<T, S>... actions) {
    exit.append(actions);
  }

''' + n[j:].replace("import java.util.stream.Stream;\n", "")))

# --- the factory: settings resolved in one place, an enum of strategies
f = src(F)
ref("l8-f-resolved", (F, None, f.replace('''    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));
''', '''    return Kind.DROP_DUPLICATE.create(config);
''').replace('''    return newDefaultStrategy(config);
''', '''    return Kind.DEFAULT.create(config);
''').replace('''  private static <T, S> DefaultEventStrategy<T, S> newDefaultStrategy(Config<T, S> config) {
    return new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),
        config.getUnexpectedFlowListener(), config.getMaxQueueSize(), config.getEventQueue());
  }
''', '''  private enum Kind {
    DEFAULT {
      @Override
      <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config) {
        return base(config);
      }
    },
    DROP_DUPLICATE {
      @Override
      <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config) {
        return new DropDuplicateEventStrategy<>(base(config));
      }
    };

    abstract <T, S> EventProcessingStrategy<T, S> create(Config<T, S> config);

    <T, S> DefaultEventStrategy<T, S> base(Config<T, S> config) {
      int bound = config.getMaxQueueSize();
      Queue<EventMachinePair<T, S>> queue = config.getEventQueue();
      ExecutorService executor = config.getExecutor();
      return new DefaultEventStrategy<>(config.getUnmappedEventHandler(), executor,
          config.getUnexpectedFlowListener(), bound, queue);
    }
  }
''')))

# --- the pool and its carriers: the carrier knows how to fill and clear itself
ref("l8-pool-carrier", (EMP, "  StateEvent<S> getStateEvent() {\n", '''  EventMachinePair<T, S> carrying(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    setEventMachinePair(event, machine);
    return this;
  }

  EventMachinePair<T, S> cleared() {
    return carrying(null, null);
  }

  StateEvent<S> getStateEvent() {
'''), (POOL, "      eventMachinePair.setEventMachinePair(null, null);\n      pool.offer(eventMachinePair);\n", "      pool.add(eventMachinePair.cleared());\n"),
  (DS, '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
''', '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take()
        .carrying(stateEvent instanceof NamedStateEvent ? new NamedStateEvent<>(stateEvent) : stateEvent, stateMachine);
'''))

# --- drop duplicates: a view of the queue that answers the question
ref("l8-dd-waiting", (DD, '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
''', '''    if (new Waiting<>(defaultStrategy.getEventQueue()).contains(stateEvent)) {
'''), (DD, "  @Override\n  public int getEventQueueSize() {\n", '''  private record Waiting<T, S>(Queue<EventMachinePair<T, S>> queue) {

    boolean contains(StateEvent<S> event) {
      for (EventMachinePair<T, S> pair : queue) {
        StateEvent<S> queued = pair.getStateEvent();
        if (queued == null) {
          continue;
        }
        if (event.equals(queued)) {
          return true;
        }
      }
      return false;
    }
  }

  @Override
  public int getEventQueueSize() {
'''))

# --- everything at once
def merge(*names):
    e = []
    for n in names: e += dict(R)[n]
    return e
ref("l8-all", *merge("l8-gsm-superclass", "l8-ds-rewritten", "l8-tt-rewritten", "l8-as-phases", "l8-mc-collector", "l8-ns-sequences", "l8-f-resolved", "l8-dd-waiting"))
ref("l8-all-progress", *merge("l8-gsm-progress", "l8-tt-rewritten", "l8-as-phases", "l8-mc-collector", "l8-ns-sequences", "l8-pool-carrier", "l8-dd-waiting"))
