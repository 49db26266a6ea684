"""A second set of edits that keep the behaviour."""
from refs import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC, EMP, EXEC, START, STOP
R = []
def ref(name, *edits): R.append((name, edits))

# --- TransitionTask
ref("tt2-swap-guards", (TT, EXEC, '''    Map<StateEvent<S>, State<T, S>> row = states.get(machine.getCurrentState());
    State<T, S> toState = row.get(event);
    if (toState != null) {
      boolean noop = machine.getNoopState().equals(toState);
      State<T, S> fromState = machine.getCurrentState();
      machine.notifyStateMachineListener(false, fromState, event, toState);
      if (!noop) {
        fromState.onExit(event, machine);
        machine.updateCurrentState(toState);
        machine.getCurrentState().onEntry(event, machine);
      }
      machine.notifyStateMachineListener(true, fromState, event, toState);
      if (!noop && endsIn(toState, machine)) {
        machine.stop();
      }
    } else {
      unmappedEventHandler.accept(event, machine);
    }
  }

  private boolean endsIn(State<T, S> state, GenericStateMachine<T, S> machine) {
    Map<StateEvent<S>, State<T, S>> row = states.get(state);
    if (row == null) {
      return true;
    }
    return machine.getEndState().equals(row.get(machine.getImmediateEvent()));
  }
'''))
ref("tt2-target-class", (TT, EXEC, '''    Step<T, S> step = new Step<>(machine.getCurrentState(), event, states.get(machine.getCurrentState()).get(event));
    if (step.to == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    step.announce(machine, false);
    if (!machine.getNoopState().equals(step.to)) {
      step.move(machine);
    }
    step.announce(machine, true);
    if (machine.getNoopState().equals(step.to)) {
      return;
    }
    Map<StateEvent<S>, State<T, S>> next = states.get(step.to);
    if (next == null || machine.getEndState().equals(next.get(machine.getImmediateEvent()))) {
      machine.stop();
    }
  }

  private static final class Step<T, S> {
    private final State<T, S> from;
    private final StateEvent<S> event;
    private final State<T, S> to;

    Step(State<T, S> from, StateEvent<S> event, State<T, S> to) {
      this.from = from;
      this.event = event;
      this.to = to;
    }

    void announce(GenericStateMachine<T, S> machine, boolean complete) {
      machine.notifyStateMachineListener(complete, from, event, to);
    }

    void move(GenericStateMachine<T, S> machine) {
      from.onExit(event, machine);
      machine.updateCurrentState(to);
      machine.getCurrentState().onEntry(event, machine);
    }
  }
'''))
ref("tt2-final-field-map", (TT, "  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;", "  private volatile Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;"))
ref("tt2-unused-local", (TT, "    State<T, S> fromState = machine.getCurrentState();\n", "    State<T, S> fromState = machine.getCurrentState();\n    String name = fromState.getName();\n    assert name == null || !name.equals(\"\\u0000\");\n"))
ref("tt2-objects-equals", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
''', '''    if (!states.containsKey(toState) || java.util.Objects.equals(
        states.get(toState).get(machine.getImmediateEvent()), machine.getEndState())) {
      machine.stop();
    }
'''))
ref("tt2-row-optional", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
''', '''    State<T, S> immediate = java.util.Optional.ofNullable(states.get(toState))
        .map(m -> m.get(machine.getImmediateEvent())).orElse(null);
    boolean configured = states.get(toState) != null;
    if (!configured || machine.getEndState().equals(immediate)) {
      machine.stop();
    }
'''))
# --- DefaultEventStrategy
DRAIN = '''    executor.execute(() -> {
      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
    });
  }
'''
ref("ds2-process-one", (DS, DRAIN, '''    executor.execute(() -> drain(stateMachine));
  }

  private void drain(GenericStateMachine<T, S> stateMachine) {
    while (!eventQueue.isEmpty()) {
      processOne(eventQueue.poll(), stateMachine);
    }
  }

  private void processOne(EventMachinePair<T, S> pair, GenericStateMachine<T, S> stateMachine) {
    try {
      if (stateMachine.isEnded()) {
        return;
      }
      transitionTask.execute(pair.getStateEvent(), pair.getStateMachine());
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(pair.getStateEvent(),
          pair.getStateMachine(), Thread.currentThread(), e);
    } finally {
      eventMachinePairPool.give(pair);
    }
  }
'''))
ref("ds2-infinite-break", (DS, DRAIN, '''    executor.execute(() -> {
      while (true) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        if (consumedPair == null) {
          break;
        }
        try {
          process(consumedPair.getStateEvent(), consumedPair.getStateMachine());
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
    });
  }

  private void process(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    try {
      if (!machine.isEnded()) {
        transitionTask.execute(event, machine);
      }
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
          Thread.currentThread(), e);
    }
  }
'''))
ref("ds2-inner-class", (DS, DRAIN, '''    executor.execute(new Drain());
  }

  private final class Drain implements Runnable {

    @Override
    public void run() {
      EventMachinePair<T, S> next;
      while ((next = eventQueue.poll()) != null) {
        final StateEvent<S> event = next.getStateEvent();
        final GenericStateMachine<T, S> machine = next.getStateMachine();
        Exception failure = null;
        try {
          try {
            if (!machine.isEnded()) {
              transitionTask.execute(event, machine);
            }
          } catch (Exception e) {
            failure = e;
          }
          if (failure != null) {
            unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
                Thread.currentThread(), failure);
          }
        } finally {
          eventMachinePairPool.give(next);
        }
      }
    }
  }
'''))
ref("ds2-do-while", (DS, DRAIN, '''    executor.execute(() -> {
      if (eventQueue.isEmpty()) {
        return;
      }
      do {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!machine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          report(event, machine, e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      } while (!eventQueue.isEmpty());
    });
  }

  private void report(StateEvent<S> event, GenericStateMachine<T, S> machine, Exception e) {
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
        Thread.currentThread(), e);
  }
'''))
FULL = '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
'''
ref("ds2-reject-helper", (DS, FULL, '''    final int queued = eventQueue.size();
    if (maxQueueSize >= 1 && !(queued < maxQueueSize)) {
      reject(stateEvent, stateMachine, "Queue size is maxed out at " + queued + " - dropping event");
      return;
    }
'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
''', '''      reject(stateEvent, stateMachine, "The event queue refused the event - dropping event");
'''), (DS, '''  protected Queue<EventMachinePair<T, S>> getEventQueue() {''', '''  private void reject(StateEvent<S> event, GenericStateMachine<T, S> machine, String why) {
    IllegalStateException e = new IllegalStateException(why);
    Thread thread = Thread.currentThread();
    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, thread, e);
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("ds2-remaining", (DS, FULL, '''    int queueSize = getEventQueueSize();
    boolean bounded = maxQueueSize > 0;
    int remaining = maxQueueSize - queueSize;
    if (bounded && remaining <= 0) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
'''))
COPY = '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
    if (!eventQueue.offer(inboundPair)) {
      eventMachinePairPool.give(inboundPair);
      unexpectedFlowListener'''
ref("ds2-wrap-helper", (DS, COPY, '''    EventMachinePair<T, S> inboundPair = carrierOf(stateEvent, stateMachine);
    if (!eventQueue.offer(inboundPair)) {
      eventMachinePairPool.give(inboundPair);
      unexpectedFlowListener'''), (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {", '''  private EventMachinePair<T, S> carrierOf(StateEvent<S> event, GenericStateMachine<T, S> machine) {
    EventMachinePair<T, S> carrier = eventMachinePairPool.take();
    carrier.setEventMachinePair(safeCopy(event), machine);
    return carrier;
  }

  private static <S> StateEvent<S> safeCopy(StateEvent<S> event) {
    if (!(event instanceof NamedStateEvent)) {
      return event;
    }
    return new NamedStateEvent<>(event);
  }

  protected Queue<EventMachinePair<T, S>> getEventQueue() {'''))
ref("ds2-copy-payload", (DS, "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", '''      NamedStateEvent<S> copy = new NamedStateEvent<>(stateEvent.getName());
      copy.setPayload(stateEvent.getPayload());
      inboundPair.setEventMachinePair(copy, stateMachine);'''))
ref("ds2-drain-local-ended", (DS, '''          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
''', '''          boolean ended = machine.isEnded();
          if (ended) {
            continue;
          }
          transitionTask.execute(event, machine);
'''))
# --- DropDuplicate
DUP = '''    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
'''
ref("dd2-lambda-method", (DD, DUP, '''    if (!isQueued(stateEvent)) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    } else {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    }
'''), (DD, "  @Override\n  public int getEventQueueSize() {", '''  private boolean isQueued(StateEvent<S> stateEvent) {
    return defaultStrategy.getEventQueue().stream().map(EventMachinePair::getStateEvent)
        .anyMatch(stateEvent::equals);
  }

  @Override
  public int getEventQueueSize() {'''))
ref("dd2-nonnull-filter", (DD, DUP, '''    boolean duplicate = defaultStrategy.getEventQueue().stream().map(EventMachinePair::getStateEvent)
        .filter(java.util.Objects::nonNull).anyMatch(queued -> queued.equals(stateEvent) && stateEvent.equals(queued));
    if (duplicate) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    }
    if (!duplicate) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
'''))
ref("dd2-iterator-for", (DD, DUP, '''    for (java.util.Iterator<EventMachinePair<T, S>> it = defaultStrategy.getEventQueue().iterator(); it.hasNext(); ) {
      StateEvent<S> queued = it.next().getStateEvent();
      if (queued == null) {
        continue;
      }
      if (stateEvent.equals(queued)) {
        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
        return;
      }
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
'''))
# --- pool & pair
ref("pool2-ternary", (POOL, '''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', '''    final EventMachinePair<T, S> pooled = pool.poll();
    return pooled != null ? pooled : new EventMachinePair<>();
'''))
ref("pool2-lbq", (POOL, "new ConcurrentLinkedQueue<>()", "new java.util.concurrent.LinkedBlockingQueue<>()"))
ref("pool2-final-locals", (POOL, '''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    if (eventMachinePair == null) {
      return;
    }
    eventMachinePair.clear();
    pool.add(eventMachinePair);
'''), (EMP, "  StateEvent<S> getStateEvent() {", "  void clear() {\n    stateEvent = null;\n    stateMachine = null;\n  }\n\n  StateEvent<S> getStateEvent() {"))
# --- machine
ref("gsm2-atomic-ref", (G, "  private volatile State<T, S> currentState;", "  private final java.util.concurrent.atomic.AtomicReference<State<T, S>> currentState = new java.util.concurrent.atomic.AtomicReference<>();"),
    (G, "    currentState = state;\n    isStarted.set(true);", "    currentState.set(state);\n    isStarted.set(true);"),
    (G, "    return this.currentState;", "    return this.currentState.get();"),
    (G, "      currentState = state;\n    }\n  }", "      currentState.set(state);\n    }\n  }"),
    (G, '.add("currentState=" + currentState)', '.add("currentState=" + currentState.get())'))
ref("gsm2-sync-block", (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
  }
''', '''  public void updateCurrentState(State<T, S> state) {
    final boolean ends = endState.equals(state);
    synchronized (this) {
      if (isEnded.get()) {
        return;
      }
      isEnded.set(ends);
      currentState = state;
    }
  }
'''))
ref("gsm2-reentrant", (G, "  private final AtomicBoolean isStarted;\n", "  private final AtomicBoolean isStarted;\n  private final java.util.concurrent.locks.ReentrantLock lock = new java.util.concurrent.locks.ReentrantLock();\n"),
    (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
  }
''', '''  public void updateCurrentState(State<T, S> state) {
    lock.lock();
    try {
      if (isEnded.compareAndSet(false, state.equals(endState))) {
        currentState = state;
      }
    } finally {
      lock.unlock();
    }
  }
'''), (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
  }
''', '''  private boolean beginIn(State<T, S> state) {
    lock.lock();
    try {
      if (isStarted.get()) {
        return false;
      }
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
      return true;
    } finally {
      lock.unlock();
    }
  }
'''))
ref("gsm2-notify-names", (G, '''      if (fromState == null) {
        fromState = this.noState;
      }
      if (toState == null) {
        toState = this.noState;
      }
      if (stateEvent == null) {
        stateEvent = this.immediateEvent;
      }
      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
''', '''      State<T, S> from = orNoState(fromState);
      State<T, S> to = orNoState(toState);
      StateEvent<S> event = java.util.Optional.ofNullable(stateEvent).orElse(this.immediateEvent);
      if (!isComplete) {
        listener.onStateChangeBegin(from, event, to);
      } else {
        listener.onStateChangeEnd(from, event, to);
      }
'''), (G, "  public StateEvent<S> getImmediateEvent() {", '''  private State<T, S> orNoState(State<T, S> state) {
    return java.util.Objects.requireNonNullElse(state, this.noState);
  }

  public StateEvent<S> getImmediateEvent() {'''))
ref("gsm2-fire-returns", (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    if (!isStarted.get()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
      return;
    }
    if (isEnded.get()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
      return;
    }
    eventProcessingStrategy.processEvent(stateEvent, this);
'''))
ref("gsm2-itends-ternary", (G, '''    if (this.markedEvent == null) {
      assertNoMappingsExistAtEnd();
      this.states.get(this.markedState).put(immediateEvent, this.endState);
    } else {
      assertEventNotMapped();
      this.states.get(this.markedState).put(this.markedEvent, this.endState);
    }
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    final boolean immediately = this.markedEvent == null;
    if (immediately) {
      assertNoMappingsExistAtEnd();
    } else {
      assertEventNotMapped();
    }
    final StateEvent<S> event = immediately ? immediateEvent : this.markedEvent;
    return outcome(event, this.endState);
'''), (G, "  private void assertNotReservedState(", '''  private StateMachine<T, S> outcome(StateEvent<S> event, State<T, S> target) {
    Map<StateEvent<S>, State<T, S>> row = this.states.get(this.markedState);
    row.put(event, target);
    this.markedEvent = null;
    this.markedState = null;
    return this;
  }

  private void assertNotReservedState('''))
ref("gsm2-init-map", (G, '''    states.put(initState, new HashMap<>());
    states.put(endState, noTransitionMap);
    states.put(noState, noTransitionMap);
    states.put(noopState, noTransitionMap);
''', '''    for (State<T, S> internal : List.of(endState, noState, noopState)) {
      states.put(internal, noTransitionMap);
    }
    states.put(initState, new HashMap<>());
'''))
ref("gsm2-init-stream", (G, '''    states.put(endState, noTransitionMap);
    states.put(noState, noTransitionMap);
    states.put(noopState, noTransitionMap);
''', '''    java.util.stream.Stream.of(endState, noState, noopState).forEach(s -> states.put(s, noTransitionMap));
'''))
ref("gsm2-own-inner-class-marks", (G, "    this.states.putIfAbsent(state, new HashMap<>());\n", "    if (!this.states.containsKey(state)) {\n      this.states.put(state, new HashMap<>(4));\n    }\n"))
ref("gsm2-assert-split", (G, '''    if (exists && this.markedState == null) {
      throw new IllegalStateException("A state has to be marked to be configured using when().");
    } else if (!exists && this.markedState != null) {
      throw new IllegalStateException(
          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
    }
''', '''    final boolean marked = this.markedState != null;
    if (exists == marked) {
      return;
    }
    throw new IllegalStateException(exists ? "A state has to be marked to be configured using when()."
        : "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
'''))
ref("gsm2-supplier-msg", (G, '''    if (toState != null) {
      throw new IllegalStateException(
          "State [" + this.markedState.getName() + "] already transitions to State [" + toState
              + "] when StateEvent [" + this.markedEvent.getName() + "] is received.");
    }
''', '''    check(toState == null, () -> String.format(
        "State [%s] already transitions to State [%s] when StateEvent [%s] is received.",
        this.markedState.getName(), toState, this.markedEvent.getName()));
'''), (G, "  private void assertNoMappingsExistAtEnd() {", '''  private static void check(boolean ok, java.util.function.Supplier<String> message) {
    if (!ok) {
      throw new IllegalStateException(message.get());
    }
  }

  private void assertNoMappingsExistAtEnd() {'''))
ref("gsm2-start-private", (G, '''    if (beginIn(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();
      }
    } else {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''    requireFirstStart(beginIn(initState));
    final State<T, S> first = initState;
    notifyStateMachineListener(false, null, null, first);
    first.onEntry(immediateEvent, this);
    notifyStateMachineListener(true, null, null, first);
    final State<T, S> then = states.get(first).get(immediateEvent);
    if (then != null && then.equals(endState)) {
      stop();
    }
'''), (G, "    if (!beginIn(state)) {\n      throw new IllegalStateException(\"The state machine has already been started\");\n    }\n", "    requireFirstStart(beginIn(state));\n"),
   (G, "  @Override\n  public boolean isStarted() {", '''  private static void requireFirstStart(boolean first) {
    if (!first) {
      throw new IllegalStateException("The state machine has already been started");
    }
  }

  @Override
  public boolean isStarted() {'''))
ref("gsm2-validate-while", (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    java.util.Iterator<Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>>> rows = this.states.entrySet().iterator();
    while (rows.hasNext()) {
      Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> row = rows.next();
      row.getValue().forEach((event, target) -> {
        if (target == null) {
          throw new IllegalStateException("State " + row.getKey().getName() + " dose not transition when a "
              + event.getName() + " event is received");
        }
      });
    }
'''))
ref("gsm2-validate-first", (G, '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
''', '''    String problem = firstProblem();
    if (problem != null) {
      throw new IllegalStateException(problem);
    }
'''), (G, "  @Override\n  public boolean isStarted() {", '''  private String firstProblem() {
    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> row : this.states.entrySet()) {
      for (Entry<StateEvent<S>, State<T, S>> outcome : row.getValue().entrySet()) {
        if (outcome.getValue() == null) {
          return "State " + row.getKey().getName() + " dose not transition when a "
              + outcome.getKey().getName() + " event is received";
        }
      }
    }
    return null;
  }

  @Override
  public boolean isStarted() {'''))
ref("gsm2-builder-ternary", (G, '''      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
      if (strategy == null) {
        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
      }
      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
''', '''      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
          eventProcessingStrategy != null ? eventProcessingStrategy
              : EventProcessingStrategyFactory.createDefaultStrategy());
'''))
ref("gsm2-concurrent-outer", (G, "new GenericStateMachine<>(context, new HashMap<>(),", "new GenericStateMachine<>(context, new java.util.concurrent.ConcurrentHashMap<>(),"))
ref("gsm2-unmodifiable-reserved", (G, '''  static final List<String> reservedStateNames = List.of(RESERVED_STATE_NAME_UNINITIALISED,
      RESERVED_STATE_NAME_END, RESERVED_STATE_NAME_NOOP);''', '''  static final List<String> reservedStateNames = java.util.Collections.unmodifiableList(
      java.util.Arrays.asList(RESERVED_STATE_NAME_UNINITIALISED, RESERVED_STATE_NAME_END, RESERVED_STATE_NAME_NOOP));'''))
ref("gsm2-delegated-stop", (G, "    updateCurrentState(this.endState);", "    final State<T, S> end = getEndState();\n    updateCurrentState(end);"))
# --- NamedState / NamedStateEvent
ref("ns2-iterator-stream", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    this.entryActions.stream().forEachOrdered(a -> a.execute(stateEvent, stateMachine));"))
ref("ns2-copy-on-run", (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    for (StateAction<T, S> action : new ArrayList<>(this.exitActions)) {\n      action.execute(stateEvent, stateMachine);\n    }"))
ref("ns2-array-list", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", '''    final int count = this.entryActions.size();
    int next = 0;
    while (next < count) {
      this.entryActions.get(next++).execute(stateEvent, stateMachine);
    }'''))
ref("ns2-linked", (NS, "    this.entryActions = new ArrayList<>();\n    this.exitActions = new ArrayList<>();", "    this.entryActions = new java.util.LinkedList<>();\n    this.exitActions = new java.util.LinkedList<>();"))
ref("ns2-append-both", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    appendTo(this.entryActions, actions);"), (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    appendTo(this.exitActions, actions);"), (NS, "  @Override\n  public String getName() {", '''  private void appendTo(List<StateAction<T, S>> target, StateAction<T, S>[] actions) {
    for (StateAction<T, S> action : actions) {
      if (action == null) {
        continue;
      }
      target.add(action);
    }
  }

  @Override
  public String getName() {'''))
ref("ns2-equals-single", (NS, '''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
''', '''    return this == o
        || o instanceof NamedState && Objects.equals(name, ((NamedState<?, ?>) o).name);
'''))
ref("ne2-copy-ctor", (NE, "    this(stateEvent.getName(), stateEvent.getPayload());", "    this.name = stateEvent.getName();\n    this.payload = stateEvent.getPayload();"))
ref("ne2-tostring", (NE, '''    return new StringJoiner(", ", NamedStateEvent.class.getSimpleName() + "[", "]")
        .add(name).toString();''', '''    return "NamedStateEvent[" + name + "]";'''))
ref("ne2-hash-once", (NE, "  private S payload;", "  private final int hash;\n  private S payload;"), (NE, '''    this.name = name;
    this.payload = payload;''', '''    this.name = name;
    this.payload = payload;
    this.hash = Objects.hashCode(name);'''), (NE, "    return Objects.hashCode(name);", "    return hash;"))
# --- HandleExceptionAction
ref("he2-try-return", (HE, '''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    final Exception failure = run(stateEvent, stateMachine);
    if (failure != null) {
      exceptionHandler.onException(stateEvent, stateMachine, failure);
    }
'''), (HE, "  /**\n   * Allows uncaught", '''  private Exception run(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    try {
      stateAction.execute(stateEvent, stateMachine);
      return null;
    } catch (Exception e) {
      return e;
    }
  }

  /**
   * Allows uncaught'''))
# --- MultiConsumer
BEG = '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
'''
END = BEG.replace("Begin", "End")
ref("mc2-consumer-helper", (MC, BEG, "    notifyAll(l -> l.onStateChangeBegin(fromState, event, toState));\n"), (MC, END, "    notifyAll(l -> l.onStateChangeEnd(fromState, event, toState));\n"),
  (MC, "  private static RuntimeException firstFailure(", '''  private void notifyAll(java.util.function.Consumer<StateMachineListener<T, S>> announcement) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> consumer : consumers.values()) {
      try {
        announcement.accept(consumer);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
  }

  private static RuntimeException firstFailure('''))
ref("mc2-failure-list", (MC, BEG, '''    List<RuntimeException> failures = new ArrayList<>();
    for (StateMachineListener<T, S> consumer : consumers.keySet()) {
      try {
        consumer.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failures.add(e);
      }
    }
    if (!failures.isEmpty()) {
      RuntimeException first = failures.get(0);
      for (int i = 1; i < failures.size(); i++) {
        if (failures.get(i) != first) {
          first.addSuppressed(failures.get(i));
        }
      }
      throw first;
    }
'''), (MC, "import java.util.Map;", "import java.util.ArrayList;\nimport java.util.List;\nimport java.util.Map;"))
ref("mc2-newkeyset", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final java.util.Set<StateMachineListener<T, S>> consumers;"),
  (MC, "new ConcurrentHashMap<>()", "ConcurrentHashMap.newKeySet()"), (MC, "this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null", "this.consumers.add(stateMachineListener)"),
  (MC, "this.consumers.remove(stateMachineListener) != null", "this.consumers.remove(stateMachineListener)"), (MC, BEG, BEG.replace("consumers.values()", "consumers")), (MC, END, END.replace("consumers.values()", "consumers")))
ref("mc2-iterator", (MC, BEG, '''    RuntimeException failure = null;
    java.util.Iterator<StateMachineListener<T, S>> it = consumers.values().iterator();
    while (it.hasNext()) {
      StateMachineListener<T, S> consumer = it.next();
      try {
        consumer.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        if (failure == null) {
          failure = e;
        } else if (failure != e) {
          failure.addSuppressed(e);
        }
      }
    }
    if (failure == null) {
      return;
    }
    throw failure;
'''))
# --- LoggingStateMachineListener
LOGB = '''    if (this.name != null && !this.name.isEmpty()) {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),
            newState.getName());
      }
    } else {
      if (isComplete) {
        logger.info(LOG_TRANSITIONED, newState.getName());
      } else {
        logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(),
            newState.getName());
      }
    }
'''
ref("ll2-returns", (LL, LOGB, '''    boolean named = this.name != null && this.name.length() > 0;
    String to = newState.getName();
    if (isComplete && named) {
      logger.info(LOG_TRANSITIONED_NAMED, this.name, to);
      return;
    }
    if (isComplete) {
      logger.info(LOG_TRANSITIONED, to);
      return;
    }
    if (named) {
      logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(), to);
      return;
    }
    logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(), to);
'''))
ref("ll2-split", (LL, "    logChange(false, fromState, event, toState);", "    logBegin(fromState, event, toState);"), (LL, "    logChange(true, fromState, event, toState);", "    logEnd(toState);"),
  (LL, '''  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,
      State<T, S> newState) {
''' + LOGB + "  }\n", '''  private boolean isNamed() {
    return this.name != null && !"".equals(this.name);
  }

  private void logBegin(State<T, S> oldState, StateEvent<S> event, State<T, S> newState) {
    if (isNamed()) {
      logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),
          newState.getName());
    } else {
      logger.info(LOG_BEGIN_TRANSITION, oldState.getName(), event.getName(), newState.getName());
    }
  }

  private void logEnd(State<T, S> newState) {
    if (isNamed()) {
      logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());
    } else {
      logger.info(LOG_TRANSITIONED, newState.getName());
    }
  }
'''))
ref("ll2-prefix", (LL, LOGB, '''    String prefix = this.name == null || this.name.isEmpty() ? "" : this.name + " ";
    if (isComplete) {
      logger.info("{}transitioned to {}", prefix, newState.getName());
    } else {
      logger.info("{}begin transition: {} + {} = {}", prefix, oldState.getName(), event.getName(),
          newState.getName());
    }
'''))
# --- DefaultUnexpectedFlowListener
ref("du2-locals", (DU, '''    logger.error("Unhandled exception while processing event {} while in state {} on thread [{}]",
        stateEvent, stateMachine.getCurrentState(), thread.getName(), e);
''', '''    final Object state = stateMachine.getCurrentState();
    final String threadName = thread.getName();
    logger.error("Unhandled exception while processing event {} while in state {} on thread [{}]",
        stateEvent, state, threadName, e);
'''))
ref("du2-helper", (DU, '    logger.warn("Event {} received after state machine has ended", stateEvent);', '    warn("Event {} received after state machine has ended", stateEvent);'), (DU, '    logger.warn("Event {} received before state machine has started", stateEvent);\n  }\n', '''    warn("Event {} received before state machine has started", stateEvent);
  }

  private static void warn(String format, Object argument) {
    logger.warn(format, argument);
  }
'''))
# --- Config / factory
ref("f2-inline-config", (F, "    return createDefaultStrategy(basicConfig);", "    return newDefaultStrategy(basicConfig);"))
ref("f2-new-basic", (F, "    return createDefaultStrategy(basicConfig);", "    return createDefaultStrategy(new Config<>());"))
ref("f2-thread-name-helper", (F, '''            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
''', '''            Threads.newNamedDaemonThreadFactory(effectiveThreadName(), Config::logUnhandled));
'''), (F, "    UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {", '''    private String effectiveThreadName() {
      return threadName != null ? threadName : "state-machine";
    }

    private static void logUnhandled(Thread thread, Throwable throwable) {
      logger.error(LOG_UNHANDLED_EXCEPTION, thread.getName(), throwable);
    }

    UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {'''))
ref("f2-no-cache-handler", (F, '''      if (unmappedEventHandler == null) {
        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
      }
      return unmappedEventHandler;
''', '''      if (unmappedEventHandler != null) {
        return unmappedEventHandler;
      }
      return (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
          sm.getCurrentState().getName());
'''))
ref("f2-pool-ctor", (F, '''        return Executors.newSingleThreadExecutor(
            Threads''', '''        return new java.util.concurrent.ThreadPoolExecutor(1, 1, 0L, java.util.concurrent.TimeUnit.MILLISECONDS,
            new java.util.concurrent.LinkedBlockingQueue<>(), Threads'''))
# --- Threads
ref("th2-name-local", (TH, '''      Thread thread = new Thread(runnable);
      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));
''', '''      final int number = threadNumber.getAndIncrement();
      final String name = this.threadName + "-" + number;
      Thread thread = new Thread(null, runnable, name);
'''))
ref("th2-string-join", (TH, "String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement())", 'this.threadName.concat("-").concat(Integer.toString(threadNumber.getAndIncrement()))'))
ref("th2-incr", (TH, "threadNumber.getAndIncrement()", "threadNumber.incrementAndGet() - 1"))
ref("th2-delegate", (TH, "    return new NamedDaemonThreadFactory(threadName);", "    return newNamedDaemonThreadFactory(threadName, null);"))
# --- context
ref("ac2-volatile", (AC, "  private final AtomicReference<String> appThreadNameRef;", "  private volatile String appThreadName;"), (AC, '    this.appThreadNameRef = new AtomicReference<>("app");', '    this.appThreadName = "app";'),
  (AC, "    appThreadNameRef.set(appThreadName);", "    this.appThreadName = appThreadName;"), (AC, "    return appThreadNameRef.get();", "    return appThreadName;"))
ref("ac2-self", (AC, '''    subsystemsRef.set(subsystems);
    return (C) this;''', '''    subsystemsRef.set(subsystems);
    return self();'''), (AC, "  @Override\n  public final String[] getInitArgs() {", '''  @SuppressWarnings("unchecked")
  private C self() {
    return (C) this;
  }

  @Override
  public final String[] getInitArgs() {'''))
# --- app service
ref("as2-exit-early", (AS, '''    String currentAppState = stateName(getLifecycleState());
    if (!appStateMachine.isStarted()) {
      // start the state machine and the app then wait indefinitely
      appStateMachine.start();
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
      try {
        appLatch.await();
      } catch (InterruptedException e) {
        logger.error("Main latch was interrupted", e);
        Thread.currentThread().interrupt();
        if (!appStateMachine.isEnded()) {
          stop();
        }
      }
    } else if''', '''    final String currentAppState = stateName(getLifecycleState());
    if (!appStateMachine.isStarted()) {
      startAndWait();
      return;
    }
    if'''), (AS, "  @Override\n  public C getAppContext() {", '''  private void startAndWait() {
    appStateMachine.start();
    appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    boolean interrupted = false;
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      interrupted = true;
    }
    if (interrupted) {
      Thread.currentThread().interrupt();
      if (!appStateMachine.isEnded()) {
        stop();
      }
    }
  }

  @Override
  public C getAppContext() {'''))
ref("as2-stop-booleans", (AS, '''    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    final boolean isStartedState = LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState);
    final boolean isStoppedState = LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState);
    if (isStoppedState && isExitOnStop) {
      return;
    }
    if (!isStartedState && !isStoppedState) {
      throw new IllegalStateException(
          "Cannot stop the app when it's in [" + currentAppState + "] state");
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
'''))
ref("as2-start-stream", (AS, "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            subsystem.start(appContext);\n          }\n", "          appContext.getSubsystems().stream().forEachOrdered(s -> s.start(appContext));\n"))
ref("as2-start-method", (AS, '''          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
''', '''          startSubsystems();
          complete();
'''), (AS, STOP + "          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n", "          stopSubsystems();\n          complete();\n"), (AS, "  @Override\n  public C getAppContext() {", '''  private void complete() {
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  private void startSubsystems() {
    Iterable<Subsystem<C>> all = appContext.getSubsystems();
    for (Subsystem<C> one : all) {
      one.start(appContext);
    }
  }

  private void stopSubsystems() {
    List<Subsystem<C>> all = appContext.getSubsystems();
    int i = all.size();
    while (i-- > 0) {
      all.get(i).stop(appContext);
    }
  }

  @Override
  public C getAppContext() {'''))
ref("as2-stop-linked", (AS, STOP, '''          java.util.LinkedList<Subsystem<C>> remaining = new java.util.LinkedList<>(appContext.getSubsystems());
          while (!remaining.isEmpty()) {
            remaining.removeLast().stop(appContext);
          }
'''))
ref("as2-stop-push", (AS, STOP, '''          java.util.Deque<Subsystem<C>> reversed = new java.util.ArrayDeque<>();
          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            reversed.push(subsystem);
          }
          for (Subsystem<C> subsystem : reversed) {
            subsystem.stop(appContext);
          }
'''))
ref("as2-stop-reversed-index", (AS, STOP, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          int count = subsystems.size();
          for (int i = 0; i < count; i++) {
            subsystems.get(count - 1 - i).stop(appContext);
          }
'''))
ref("as2-error-inline", (AS, '''    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;
    logger.error("{} has an error", appContext.getAppName(), e);
    appStateMachine.fire(evtError);
''', '''    logger.error("{} has an error", getAppContext().getAppName(), e);
    appStateMachine.fire(LifecycleStateMachineUtil.evtError);
'''))
ref("as2-fields-order", (AS, '''    this.appContext = appContext;
    this.isExitOnStop = isExitOnStop;
    configureAppStateMachine();
''', '''    this.isExitOnStop = isExitOnStop;
    this.appContext = appContext;
    configureAppStateMachine();
'''), (AS, "    appLatch = new CountDownLatch(1);\n", ""), (AS, "  private final CountDownLatch appLatch;", "  private final CountDownLatch appLatch = new CountDownLatch(1);"))
ref("as2-exit-actions", (AS, '''      if (LifecycleStateMachineUtil.evtStop.equals(event)) {
        // the app ends, in restartable mode this is the only place to release the thread in start()
        appLatch.countDown();
      }
''', '''      final boolean ends = event.getName().equals(LifecycleStateMachineUtil.evtStop.getName());
      if (ends) {
        appLatch.countDown();
      }
'''))
ref("as2-exit-not-start", (AS, '''      if (LifecycleStateMachineUtil.evtStop.equals(event)) {
        // the app ends, in restartable mode this is the only place to release the thread in start()
        appLatch.countDown();
      }
''', '''      if (LifecycleStateMachineUtil.evtStart.equals(event)) {
        return;
      }
      appLatch.countDown();
'''))
ref("lu2-table", (LU, '''    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);
''', '''    for (State<T, Void> failing : java.util.Arrays.asList(starting, started, stopping)) {
      stateMachine.when(failing).receives(evtError).itTransitionsTo(stopped);
    }
    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(stopping).receives(evtComplete).itTransitionsTo(stopped);
'''))
ref("lu2-new-state-loop", (LU, '''    NamedState<T, S> state = new NamedState<>(name);
    state.appendEntryActions(entryActions);
    return state;
''', '''    final State<T, S> state = new NamedState<>(name);
    for (StateAction<T, S> action : entryActions) {
      state.appendEntryActions(action);
    }
    return state;
'''))
