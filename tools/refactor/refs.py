"""Edits that keep the behaviour: every check has to stay quiet, and decided, on each of them."""
M = "src/main/java/com/webotech/statemachine/"
G, TT, DS, DD = M + "GenericStateMachine.java", M + "strategy/TransitionTask.java", M + "strategy/DefaultEventStrategy.java", M + "strategy/DropDuplicateEventStrategy.java"
F, NS, NE, HE = M + "strategy/EventProcessingStrategyFactory.java", M + "NamedState.java", M + "NamedStateEvent.java", M + "HandleExceptionAction.java"
MC, LL, DU, POOL = M + "MultiConsumerStateMachineListener.java", M + "LoggingStateMachineListener.java", M + "strategy/DefaultUnexpectedFlowListener.java", M + "strategy/EventMachinePairPool.java"
AS, LU, TH, AC, EMP = M + "service/AbstractAppService.java", M + "service/LifecycleStateMachineUtil.java", M + "util/Threads.java", M + "service/AbstractAppContext.java", M + "strategy/EventMachinePair.java"
R = []
def ref(name, *edits): R.append((name, edits))

# --- TransitionTask
EXEC = '''    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    if (machine.getNoopState().equals(toState)) {
      // No transition but notify the listener so it can tell a StateEvent was received
      machine.notifyStateMachineListener(false, machine.getCurrentState(), event, toState);
      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);
      return;
    }
    State<T, S> fromState = machine.getCurrentState();
    machine.notifyStateMachineListener(false, fromState, event, toState);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
  }
'''
ref("tt-helpers", (TT, EXEC, '''    final State<T, S> fromState = machine.getCurrentState();
    final State<T, S> toState = states.get(fromState).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
    } else if (machine.getNoopState().equals(toState)) {
      announceNoTransition(event, machine, fromState, toState);
    } else {
      transition(event, machine, fromState, toState);
      if (endsIn(toState, machine)) {
        machine.stop();
      }
    }
  }

  private void announceNoTransition(StateEvent<S> event, GenericStateMachine<T, S> machine, State<T, S> fromState, State<T, S> toState) {
    for (boolean complete : new boolean[]{false, true}) {
      machine.notifyStateMachineListener(complete, fromState, event, toState);
    }
  }

  private void transition(StateEvent<S> event, GenericStateMachine<T, S> machine, State<T, S> fromState, State<T, S> toState) {
    machine.notifyStateMachineListener(false, fromState, event, toState);
    fromState.onExit(event, machine);
    machine.updateCurrentState(toState);
    toState.onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
  }

  private boolean endsIn(State<T, S> state, GenericStateMachine<T, S> machine) {
    Map<StateEvent<S>, State<T, S>> outcomes = states.get(state);
    if (outcomes == null) {
      return true;
    }
    return machine.getEndState().equals(outcomes.get(machine.getImmediateEvent()));
  }
'''))
ref("tt-optional", (TT, '''    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
''', '''    java.util.Optional<State<T, S>> target = java.util.Optional.ofNullable(
        states.get(machine.getCurrentState()).get(event));
    if (!target.isPresent()) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    State<T, S> toState = target.get();
'''))
ref("tt-containskey-end", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
''', '''    boolean configured = states.containsKey(toState);
    if (!configured) {
      machine.stop();
      return;
    }
    State<T, S> immediate = states.get(toState).get(machine.getImmediateEvent());
    if (immediate != null && immediate.equals(machine.getEndState())) {
      machine.stop();
    }
'''))
ref("tt-getordefault", (TT, '''    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
''', '''    Map<StateEvent<S>, State<T, S>> next = states.getOrDefault(toState,
        java.util.Collections.singletonMap(machine.getImmediateEvent(), machine.getEndState()));
    if (machine.getEndState().equals(next.get(machine.getImmediateEvent()))) {
'''))
ref("tt-flip-noop", (TT, "if (machine.getNoopState().equals(toState)) {", "final boolean noop = toState.equals(machine.getNoopState());\n    if (noop) {"))
ref("tt-noop-enum-switch", (TT, EXEC, '''    State<T, S> fromState = machine.getCurrentState();
    State<T, S> toState = states.get(fromState).get(event);
    int kind = toState == null ? 0 : machine.getNoopState().equals(toState) ? 1 : 2;
    switch (kind) {
      case 0:
        unmappedEventHandler.accept(event, machine);
        break;
      case 1:
        machine.notifyStateMachineListener(false, fromState, event, toState);
        machine.notifyStateMachineListener(true, fromState, event, toState);
        break;
      default:
        machine.notifyStateMachineListener(false, fromState, event, toState);
        fromState.onExit(event, machine);
        machine.updateCurrentState(toState);
        toState.onEntry(event, machine);
        machine.notifyStateMachineListener(true, fromState, event, toState);
        if (states.get(toState) == null || machine.getEndState()
            .equals(states.get(toState).get(machine.getImmediateEvent()))) {
          machine.stop();
        }
    }
  }
'''))
ref("tt-debuglog", (TT, "    machine.getCurrentState().onExit(event, machine);", "    org.apache.logging.log4j.Logger log = org.apache.logging.log4j.LogManager.getLogger(TransitionTask.class);\n    if (log.isDebugEnabled()) {\n      log.debug(\"Leaving {} on {}\", fromState, event);\n    }\n    machine.getCurrentState().onExit(event, machine);"))
# --- DefaultEventStrategy
LOOP = '''      while (!eventQueue.isEmpty()) {
        EventMachinePair<T, S> consumedPair = eventQueue.poll();
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!stateMachine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
'''
ref("ds-poll-loop", (DS, LOOP, '''      EventMachinePair<T, S> consumedPair;
      while ((consumedPair = eventQueue.poll()) != null) {
        StateEvent<S> event = consumedPair.getStateEvent();
        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
        try {
          if (!machine.isEnded()) {
            transitionTask.execute(event, machine);
          }
        } catch (Exception e) {
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        } finally {
          eventMachinePairPool.give(consumedPair);
        }
      }
'''))
ref("ds-for-loop", (DS, LOOP, '''      for (EventMachinePair<T, S> next = eventQueue.poll(); next != null; next = eventQueue.poll()) {
        processOne(next);
      }
'''), (DS, "  @Override\n  public void setStates(", '''  private void processOne(EventMachinePair<T, S> pair) {
    final StateEvent<S> event = pair.getStateEvent();
    final GenericStateMachine<T, S> machine = pair.getStateMachine();
    try {
      if (machine.isEnded()) {
        return;
      }
      transitionTask.execute(event, machine);
    } catch (Exception e) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), e);
    } finally {
      eventMachinePairPool.give(pair);
    }
  }

  @Override
  public void setStates('''))
ref("ds-method-ref", (DS, "    executor.execute(() -> {\n" + LOOP + "    });\n", "    executor.execute(this::drain);\n"), (DS, "  @Override\n  public void setStates(", "  private void drain() {\n" + LOOP.replace("stateMachine.isEnded", "machine.isEnded").replace("      while", "    while").replace("\n  ", "\n") + "  }\n\n  @Override\n  public void setStates("))
ref("ds-runnable-class", (DS, "    executor.execute(() -> {\n" + LOOP + "    });\n", "    executor.execute(new Drain(stateMachine));\n"), (DS, "  @Override\n  public void setStates(", "  private final class Drain implements Runnable {\n    private final GenericStateMachine<T, S> stateMachine;\n\n    Drain(GenericStateMachine<T, S> m) {\n      this.stateMachine = m;\n    }\n\n    @Override\n    public void run() {\n" + LOOP + "    }\n  }\n\n  @Override\n  public void setStates("))
FULL = '''    int queueSize = getEventQueueSize();
    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
      return;
    }
'''
ref("ds-isfull", (DS, FULL, '''    if (isFull()) {
      reject(stateEvent, stateMachine,
          "Queue size is maxed out at " + getEventQueueSize() + " - dropping event");
      return;
    }
'''), (DS, '''      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
          Thread.currentThread(), new IllegalStateException(
              "The event queue refused the event - dropping event"));
      return;
''', '''      reject(stateEvent, stateMachine, "The event queue refused the event - dropping event");
      return;
'''), (DS, "  @Override\n  public void setStates(", '''  private boolean isFull() {
    if (maxQueueSize <= 0) {
      return false;
    }
    return !(eventQueue.size() < maxQueueSize);
  }

  private void reject(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine, String why) {
    Exception e = new IllegalStateException(why);
    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine, Thread.currentThread(), e);
  }

  @Override
  public void setStates('''))
ref("ds-bound-field", (DS, "    this.maxQueueSize = maxQueueSize;\n  }", "    this.maxQueueSize = maxQueueSize > 0 ? maxQueueSize : Integer.MAX_VALUE;\n  }"), (DS, "    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {", "    if (maxQueueSize != Integer.MAX_VALUE && queueSize >= maxQueueSize) {"))
ref("ds-copy-ternary", (DS, '''    if (stateEvent instanceof NamedStateEvent) {
      /* Use a safe copy of the StateEvent in case the client is
        setting different payloads on the same event instance */
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
    } else {
      inboundPair.setEventMachinePair(stateEvent, stateMachine);
    }
''', '''    inboundPair.setEventMachinePair(snapshot(stateEvent), stateMachine);
'''), (DS, "  @Override\n  public void setStates(", '''  private static <P> StateEvent<P> snapshot(StateEvent<P> event) {
    return event instanceof NamedStateEvent ? new NamedStateEvent<>(event) : event;
  }

  @Override
  public void setStates('''))
ref("ds-copy-first", (DS, '''    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (stateEvent instanceof NamedStateEvent) {
''', '''    final StateEvent<S> queued = (stateEvent instanceof NamedStateEvent)
        ? new NamedStateEvent<>(stateEvent) : stateEvent;
    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
    if (queued != stateEvent) {
'''), (DS, "inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", "inboundPair.setEventMachinePair(queued, stateMachine);"))
ref("ds-offer-var", (DS, "    if (!eventQueue.offer(inboundPair)) {", "    final boolean accepted = eventQueue.offer(inboundPair);\n    if (!accepted) {"))
ref("ds-ifelse", (DS, "      return;\n    }\n    executor.execute(() -> {", "    } else executor.execute(() -> {"))
ref("ds-timing", (DS, "        try {\n          if (!stateMachine", "        long begun = System.nanoTime();\n        try {\n          if (!stateMachine"), (DS, "        } finally {\n", "        } finally {\n          long took = System.nanoTime() - begun;\n          if (took < 0) {\n            took = 0;\n          }\n"))
ref("ds-catch-order", (DS, "        } catch (Exception e) {\n", "        } catch (RuntimeException e) {\n          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n              Thread.currentThread(), e);\n        } catch (Exception e) {\n"))
ref("ds-null-guard", (DS, "        StateEvent<S> event = consumedPair.getStateEvent();", "        if (consumedPair == null) {\n          break;\n        }\n        StateEvent<S> event = consumedPair.getStateEvent();"))
# --- DropDuplicate
DUP = '''    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
      return;
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
'''
ref("dd-loop", (DD, DUP, '''    for (EventMachinePair<T, S> en : eventQueue) {
      if (stateEvent.equals(en.getStateEvent())) {
        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
        return;
      }
    }
    defaultStrategy.processEvent(stateEvent, stateMachine);
'''))
ref("dd-flag", (DD, DUP, '''    boolean duplicate = false;
    for (EventMachinePair<T, S> en : eventQueue) {
      if (stateEvent.equals(en.getStateEvent())) {
        duplicate = true;
      }
    }
    if (duplicate) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
'''))
ref("dd-flag-break", (DD, DUP, '''    boolean duplicate = false;
    for (EventMachinePair<T, S> en : eventQueue) {
      if (stateEvent.equals(en.getStateEvent())) {
        duplicate = true;
        break;
      }
    }
    if (duplicate) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    }
'''))
ref("dd-or", (DD, DUP, '''    boolean duplicate = false;
    for (EventMachinePair<T, S> en : eventQueue) {
      duplicate |= stateEvent.equals(en.getStateEvent());
    }
    if (!duplicate) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
      return;
    }
    logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
'''))
ref("dd-iter-while", (DD, DUP, '''    boolean duplicate = false;
    java.util.Iterator<EventMachinePair<T, S>> it = eventQueue.iterator();
    while (!duplicate && it.hasNext()) {
      duplicate = stateEvent.equals(it.next().getStateEvent());
    }
    if (!duplicate) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
      return;
    }
    logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
'''))
ref("dd-count", (DD, DUP, '''    int same = 0;
    for (EventMachinePair<T, S> en : eventQueue) {
      if (stateEvent.equals(en.getStateEvent())) {
        same++;
      }
    }
    if (same == 0) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
      return;
    }
    logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
'''))
ref("dd-map-stream", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "eventQueue.stream().map(EventMachinePair::getStateEvent).anyMatch(stateEvent::equals)"))
ref("dd-nonematch", (DD, DUP, '''    if (eventQueue.stream().noneMatch(en -> stateEvent.equals(en.getStateEvent()))) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
    } else {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    }
'''))
ref("dd-filter-find", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "eventQueue.stream().filter(en -> stateEvent.equals(en.getStateEvent())).findAny().isPresent()"))
ref("dd-filter-count", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "eventQueue.stream().filter(en -> stateEvent.equals(en.getStateEvent())).count() > 0"))
ref("dd-collect", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "!eventQueue.stream().filter(en -> stateEvent.equals(en.getStateEvent())).collect(java.util.stream.Collectors.toList()).isEmpty()"))
ref("dd-helper", (DD, "eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))", "isQueued(stateEvent, eventQueue)"), (DD, "  @Override\n  public void setStates(", '''  private boolean isQueued(StateEvent<S> stateEvent, Queue<EventMachinePair<T, S>> queue) {
    for (EventMachinePair<T, S> pair : queue) {
      StateEvent<S> waiting = pair.getStateEvent();
      if (waiting != null && stateEvent.equals(waiting)) {
        return true;
      }
    }
    return false;
  }

  @Override
  public void setStates('''))
ref("dd-empty-shortcut", (DD, "    if (eventQueue.stream()", "    if (eventQueue.isEmpty()) {\n      defaultStrategy.processEvent(stateEvent, stateMachine);\n      return;\n    }\n    if (eventQueue.stream()"))
ref("dd-objects-equals", (DD, "stateEvent.equals(en.getStateEvent())", "java.util.Objects.equals(stateEvent, en.getStateEvent())"))
# --- pool
ref("pool-optional", (POOL, '''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', '''    EventMachinePair<T, S> pooled = pool.poll();
    return pooled != null ? pooled : new EventMachinePair<>();
'''))
ref("pool-deque", (POOL, "new ConcurrentLinkedQueue<>()", "new java.util.concurrent.ConcurrentLinkedDeque<>()"))
ref("pool-add", (POOL, "pool.offer(", "pool.add("))
ref("pool-reset-method", (POOL, "      eventMachinePair.setEventMachinePair(null, null);", "      eventMachinePair.reset();"), (EMP, "  StateEvent<S> getStateEvent() {", "  void reset() {\n    this.stateMachine = null;\n    this.stateEvent = null;\n  }\n\n  StateEvent<S> getStateEvent() {"))
ref("pool-early-return", (POOL, '''    if (eventMachinePair != null) {
      eventMachinePair.setEventMachinePair(null, null);
      pool.offer(eventMachinePair);
    }
''', '''    if (eventMachinePair == null) {
      return;
    }
    eventMachinePair.setEventMachinePair(null, null);
    pool.offer(eventMachinePair);
'''))
ref("pool-requireelse", (POOL, '''    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
    return eventMachinePair;
''', '''    return java.util.Optional.ofNullable(pool.poll()).orElseGet(EventMachinePair::new);
'''))
# --- machine
ref("gsm-fire-order", (G, '''    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
''', '''    boolean started = isStarted.get();
    if (started && !isEnded.get()) {
      eventProcessingStrategy.processEvent(stateEvent, this);
      return;
    }
    if (started) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    }
'''))
ref("gsm-notify-ternary", (G, '''      if (fromState == null) {
        fromState = this.noState;
      }
      if (toState == null) {
        toState = this.noState;
      }
      if (stateEvent == null) {
        stateEvent = this.immediateEvent;
      }
      if (isComplete) {
        listener.onStateChangeEnd(fromState, stateEvent, toState);
      } else {
        listener.onStateChangeBegin(fromState, stateEvent, toState);
      }
''', '''      State<T, S> from = fromState != null ? fromState : this.noState;
      State<T, S> to = toState == null ? this.noState : toState;
      StateEvent<S> event = stateEvent == null ? this.immediateEvent : stateEvent;
      if (!isComplete) {
        listener.onStateChangeBegin(from, event, to);
        return;
      }
      listener.onStateChangeEnd(from, event, to);
'''))
ref("gsm-notify-early", (G, "    if (listener != null) {\n      if (fromState == null) {", "    if (listener == null) {\n      return;\n    }\n    {\n      if (fromState == null) {"))
VALID = '''    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
'''
ref("gsm-validate-helper", (G, VALID, "    assertEveryEventHasAnOutcome();\n"), (G, "  @Override\n  public void start() {", "  private void assertEveryEventHasAnOutcome() {\n" + VALID + "  }\n\n  @Override\n  public void start() {"))
ref("gsm-validate-foreach", (G, VALID, '''    this.states.forEach((state, outcomes) -> outcomes.forEach((event, target) -> {
      if (target == null) {
        throw new IllegalStateException(
            "State " + state.getName() + " dose not transition when a " + event.getName()
                + " event is received");
      }
    }));
'''))
ref("gsm-validate-keys", (G, VALID, '''    for (State<T, S> key : this.states.keySet()) {
      Map<StateEvent<S>, State<T, S>> outcomes = this.states.get(key);
      for (StateEvent<S> event : outcomes.keySet()) {
        if (outcomes.get(event) == null) {
          throw new IllegalStateException("State " + key.getName()
              + " dose not transition when a " + event.getName() + " event is received");
        }
      }
    }
'''))
ref("gsm-validate-values", (G, VALID, '''    for (Map<StateEvent<S>, State<T, S>> outcomes : this.states.values()) {
      if (outcomes.containsValue(null)) {
        throw new IllegalStateException("An event does not transition");
      }
    }
'''))
ref("gsm-validate-stream", (G, VALID, '''    if (this.states.values().stream().anyMatch(m -> m.values().stream().anyMatch(java.util.Objects::isNull))) {
      throw new IllegalStateException("An event does not transition");
    }
'''))
ref("gsm-validate-flatmap", (G, VALID, '''    if (this.states.values().stream().flatMap(m -> m.values().stream()).anyMatch(java.util.Objects::isNull)) {
      throw new IllegalStateException("An event does not transition");
    }
'''))
ref("gsm-validate-collect", (G, VALID, '''    java.util.List<String> missing = new java.util.ArrayList<>();
    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          missing.add(entry.getKey().getName() + "/" + entry1.getKey().getName());
        }
      }
    }
    if (!missing.isEmpty()) {
      throw new IllegalStateException("Events without transition " + missing);
    }
'''))
ref("gsm-start-else", (G, '''    if (beginIn(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
''', '''    if (!beginIn(initState)) {
      throw new IllegalStateException("The state machine has already been started");
    } else {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
'''), (G, '''        stop();
      }
    } else {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''        stop();
      }
    }
'''))
ref("gsm-enter-initial", (G, '''      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();
      }
''', '''      enter(initState);
'''), (G, "  @Override\n  public void start() {", '''  private void enter(State<T, S> state) {
    notifyStateMachineListener(false, null, null, state);
    state.onEntry(immediateEvent, this);
    notifyStateMachineListener(true, null, null, state);
    Map<StateEvent<S>, State<T, S>> outcomes = states.get(state);
    if (outcomes.get(immediateEvent) != null && outcomes.get(immediateEvent).equals(endState)) {
      stop();
    }
  }

  @Override
  public void start() {'''))
ref("gsm-reserved-loop", (G, '''    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {
      throw new IllegalStateException(
          "Invalid state [" + state.getName() + "] is using a reserved name.");
    }
''', '''    for (String reserved : reservedStateNames) {
      if (reserved.equals(state.getName())) {
        throw new IllegalStateException(
            "Invalid state [" + state.getName() + "] is using a reserved name.");
      }
    }
'''))
ref("gsm-reserved-contains", (G, "reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))", "state.getName() != null && reservedStateNames.contains(state.getName())"))
ref("gsm-reserved-or", (G, "reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))", "RESERVED_STATE_NAME_UNINITIALISED.equals(state.getName()) || RESERVED_STATE_NAME_END.equals(state.getName()) || RESERVED_STATE_NAME_NOOP.equals(state.getName())"))
ref("gsm-reserved-switch", (G, '''    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {
      throw''', '''    final String name = state.getName();
    final boolean reserved = name != null && (name.equals(RESERVED_STATE_NAME_END) || name.equals(RESERVED_STATE_NAME_NOOP) || name.equals(RESERVED_STATE_NAME_UNINITIALISED));
    if (reserved) {
      throw'''))
ref("gsm-outcome-helper", (G, '''    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, state);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    assertMarkedStateDefined(true);
    return outcome(state);
'''), (G, '''    assertMarkedStateDefined(true);
    assertEventNotMapped();
    this.states.get(this.markedState).put(this.markedEvent, this.noopState);
    this.markedState = null;
    this.markedEvent = null;
    return this;
''', '''    assertMarkedStateDefined(true);
    return outcome(this.noopState);
'''), (G, "  private void assertNotReservedStateEvent(", '''  private StateMachine<T, S> outcome(State<T, S> target) {
    assertEventNotMapped();
    final Map<StateEvent<S>, State<T, S>> outcomes = this.states.get(this.markedState);
    outcomes.put(this.markedEvent, target);
    clearMarks();
    return this;
  }

  private void clearMarks() {
    this.markedEvent = null;
    this.markedState = null;
  }

  private void assertNotReservedStateEvent('''))
ref("gsm-computeifabsent", (G, "    this.states.putIfAbsent(state, new HashMap<>());", "    this.states.computeIfAbsent(state, s -> new HashMap<>());"))
ref("gsm-containskey-put", (G, "    this.states.putIfAbsent(state, new HashMap<>());", "    if (!this.states.containsKey(state)) {\n      this.states.put(state, new HashMap<>());\n    }"))
ref("gsm-receives-containskey", (G, "    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);", "    Map<StateEvent<S>, State<T, S>> outcomes = this.states.get(this.markedState);\n    if (!outcomes.containsKey(stateEvent)) {\n      outcomes.put(stateEvent, null);\n    }"))
ref("gsm-linkedhashmap", (G, "strategy = EventProcessingStrategyFactory.createDefaultStrategy();\n      }\n      return new GenericStateMachine<>(context, new HashMap<>(),", "strategy = EventProcessingStrategyFactory.createDefaultStrategy();\n      }\n      return new GenericStateMachine<>(context, new java.util.LinkedHashMap<>(),"))
ref("gsm-update-ifs", (G, '''    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''    if (isEnded.get()) {
      return;
    }
    if (state.equals(endState)) {
      isEnded.set(true);
    }
    currentState = state;
'''))
ref("gsm-update-order", (G, '''    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''    boolean ends = state.equals(endState);
    if (!isEnded.get()) {
      currentState = state;
      isEnded.set(ends);
    }
'''))
ref("gsm-lock-object", (G, '''  public synchronized void updateCurrentState(State<T, S> state) {
    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
  }''', '''  public void updateCurrentState(State<T, S> state) {
    synchronized (isStarted) {
      if (isEnded.compareAndSet(false, state.equals(endState))) {
        currentState = state;
      }
    }
  }'''), (G, '''  private synchronized boolean beginIn(State<T, S> state) {
    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;
  }''', '''  private boolean beginIn(State<T, S> state) {
    synchronized (isStarted) {
      if (!isStarted.get()) {
        isEnded.set(false);
        currentState = state;
        isStarted.set(true);
        return true;
      }
      return false;
    }
  }'''))
ref("gsm-stop-inline", (G, "  public void stop() {\n    updateCurrentState(this.endState);", "  public void stop() {\n    final State<T, S> end = getEndState();\n    updateCurrentState(end);"))
ref("gsm-stop-guard", (G, "  public void stop() {\n    updateCurrentState(this.endState);", "  public void stop() {\n    if (isEnded()) {\n      return;\n    }\n    updateCurrentState(this.endState);"))
ref("gsm-startinstate-order", (G, '''    if (!states.containsKey(state)) {
      throw new IllegalStateException("State [" + state + "] has not been configured");
    }
    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
''', '''    if (states.get(state) == null) {
      throw new IllegalStateException(String.format("State [%s] has not been configured", state));
    }
    boolean begun = beginIn(state);
    if (begun) {
      return;
    }
    throw new IllegalStateException("The state machine has already been started");
'''))
ref("gsm-toString-sb", (G, '''    return new StringJoiner(", ", GenericStateMachine.class.getSimpleName() + "[", "]")
        .add("currentState=" + currentState)
        .add("context=" + context)
        .toString();
''', '''    return "GenericStateMachine[currentState=" + currentState + ", context=" + context + "]";
'''))
ref("gsm-volatile-flags", (G, "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;", "  private volatile boolean isStarted;\n  private volatile boolean isEnded;"),
    (G, "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", ""),
    (G, '''    if (isStarted.get()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;''', '''    if (isStarted) {
      return false;
    }
    isEnded = false;
    currentState = state;
    isStarted = true;
    return true;'''),
    (G, "return isStarted.get();", "return isStarted;"), (G, "return isEnded.get();", "return isEnded;"),
    (G, '''    if (isEnded.compareAndSet(false, state.equals(endState))) {
      currentState = state;
    }
''', '''    if (!isEnded) {
      isEnded = state.equals(endState);
      currentState = state;
    }
'''))
ref("gsm-marks-reorder", (G, "    assertInitStateDefined(true);\n    assertMarkedStateDefined(false);\n    this.states", "    assertMarkedStateDefined(false);\n    assertInitStateDefined(true);\n    this.states"))
# --- states, events
ref("ns-loop", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    for (StateAction<T, S> action : this.entryActions) {\n      action.execute(stateEvent, stateMachine);\n    }"))
ref("ns-index", (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    for (int i = 0; i < this.exitActions.size(); i++) {\n      this.exitActions.get(i).execute(stateEvent, stateMachine);\n    }"))
ref("ns-run-helper", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    run(this.entryActions, stateEvent, stateMachine);"), (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    run(this.exitActions, stateEvent, stateMachine);"), (NS, "  @Override\n  public String getName() {", '''  private void run(List<StateAction<T, S>> actions, StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {
    java.util.Iterator<StateAction<T, S>> it = actions.iterator();
    while (it.hasNext()) {
      it.next().execute(stateEvent, stateMachine);
    }
  }

  @Override
  public String getName() {'''))
ref("ns-append-loop", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    for (StateAction<T, S> action : actions) {\n      if (action != null) {\n        this.entryActions.add(action);\n      }\n    }"))
ref("ns-append-index", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    for (int i = 0; i < actions.length; i++) {\n      StateAction<T, S> action = actions[i];\n      if (action == null) {\n        continue;\n      }\n      this.exitActions.add(action);\n    }"))
ref("ns-append-collect", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    this.entryActions.addAll(java.util.Arrays.stream(actions).filter(a -> a != null)\n        .collect(java.util.stream.Collectors.toList()));"))
ref("ns-append-helper", (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    append(this.entryActions, actions);"), (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    append(this.exitActions, actions);"), (NS, "  @Override\n  public String getName() {", '''  private static <A> void append(List<A> to, A[] actions) {
    java.util.Arrays.asList(actions).stream().filter(Objects::nonNull).forEachOrdered(to::add);
  }

  @Override
  public String getName() {'''))
ref("ns-cow", (NS, "    this.entryActions = new ArrayList<>();", "    this.entryActions = new java.util.concurrent.CopyOnWriteArrayList<>();"))
ref("ns-equals-instanceof", (NS, '''    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedState<?, ?> that = (NamedState<?, ?>) o;
    return Objects.equals(name, that.name);
''', '''    if (!(o instanceof NamedState)) {
      return false;
    }
    return Objects.equals(this.name, ((NamedState<?, ?>) o).getName());
'''))
ref("ns-hash", (NS, "return Objects.hashCode(name);", "return name == null ? 0 : name.hashCode();"))
ref("ne-equals", (NE, "    return Objects.equals(name, that.name);", "    return name == null ? that.name == null : name.equals(that.name);"))
ref("ne-hash", (NE, "return Objects.hashCode(name);", "return Objects.hash(name);"))
ref("ne-equals-one", (NE, '''    if (this == o) {
      return true;
    }
    if (o == null || getClass() != o.getClass()) {
      return false;
    }
    NamedStateEvent<S> that = (NamedStateEvent) o;
    return Objects.equals(name, that.name);
''', '''    return this == o || o instanceof NamedStateEvent && Objects.equals(name, ((NamedStateEvent) o).name);
'''))
# --- handler, listeners
ref("he-split", (HE, "    } catch (Exception e) {\n", "    } catch (RuntimeException e) {\n      exceptionHandler.onException(stateEvent, stateMachine, e);\n    } catch (Exception e) {\n"))
ref("he-var", (HE, '''    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      exceptionHandler.onException(stateEvent, stateMachine, e);
    }
''', '''    Exception failure = null;
    try {
      stateAction.execute(stateEvent, stateMachine);
    } catch (Exception e) {
      failure = e;
    }
    if (failure != null) {
      exceptionHandler.onException(stateEvent, stateMachine, failure);
    }
'''))
ref("he-helper", (HE, "      stateAction.execute(stateEvent, stateMachine);\n", "      run(stateEvent, stateMachine);\n"), (HE, "  /**\n   * Allows uncaught", "  private void run(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {\n    stateAction.execute(stateEvent, stateMachine);\n  }\n\n  /**\n   * Allows uncaught"))
BEG = '''    RuntimeException failure = null;
    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
      try {
        stateMachineListener.onStateChangeBegin(fromState, event, toState);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
'''
FIN = BEG.replace("Begin", "End")
ref("mc-foreach-helper", (MC, BEG, "    forEach(l -> l.onStateChangeBegin(fromState, event, toState));\n"), (MC, FIN, "    forEach(l -> l.onStateChangeEnd(fromState, event, toState));\n"), (MC, "  private static RuntimeException firstFailure", '''  private void forEach(java.util.function.Consumer<StateMachineListener<T, S>> call) {
    RuntimeException failure = null;
    for (StateMachineListener<T, S> listener : consumers.keySet()) {
      try {
        call.accept(listener);
      } catch (RuntimeException e) {
        failure = firstFailure(failure, e);
      }
    }
    if (failure != null) {
      throw failure;
    }
  }

  private static RuntimeException firstFailure'''))
ref("mc-inline-failure", (MC, "        failure = firstFailure(failure, e);\n      }\n    }\n    if (failure != null) {\n      throw failure;\n    }\n  }\n\n  @Override", "        if (failure == null) {\n          failure = e;\n        } else {\n          failure.addSuppressed(e == failure ? null : e);\n        }\n      }\n    }\n    if (failure != null) {\n      throw failure;\n    }\n  }\n\n  @Override") if False else (MC, "        failure = firstFailure(failure, e);\n      }\n    }\n    if (failure != null) {\n      throw failure;\n    }\n  }\n\n  @Override", "        if (failure == null) {\n          failure = e;\n        } else if (failure != e) {\n          failure.addSuppressed(e);\n        }\n      }\n    }\n    if (failure != null) {\n      throw failure;\n    }\n  }\n\n  @Override"))
ref("mc-keyset", (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final java.util.Set<StateMachineListener<T, S>> consumers;"), (MC, "this.consumers = new ConcurrentHashMap<>();", "this.consumers = ConcurrentHashMap.newKeySet();"), (MC, "this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null", "this.consumers.add(stateMachineListener)"), (MC, "this.consumers.remove(stateMachineListener) != null", "this.consumers.remove(stateMachineListener)"), (MC, BEG, BEG.replace("consumers.values()", "consumers")), (MC, FIN, FIN.replace("consumers.values()", "consumers")))
ref("mc-ctor-loop", (MC, "    Stream.of(listeners).filter(Objects::nonNull).forEach(this::add);", "    for (StateMachineListener<T, S> listener : listeners) {\n      if (listener != null) {\n        add(listener);\n      }\n    }"))
ref("mc-add-var", (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "    StateMachineListener<T, S> old = this.consumers.putIfAbsent(stateMachineListener, stateMachineListener);\n    if (old != null) {\n      return false;\n    }\n    return true;"))
# --- factory, threads
ref("f-threadname", (F, "threadName == null ? \"state-machine\" : threadName", "threadNameOrDefault()"), (F, "    int getMaxQueueSize() {", "    private String threadNameOrDefault() {\n      if (threadName != null) {\n        return threadName;\n      }\n      return \"state-machine\";\n    }\n\n    int getMaxQueueSize() {"))
ref("f-fixed-one", (F, "Executors.newSingleThreadExecutor(\n", "Executors.newFixedThreadPool(1,\n"))
ref("f-factory-var", (F, '''        return Executors.newSingleThreadExecutor(
            Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
''', '''        String name = java.util.Objects.requireNonNullElse(threadName, "state-machine");
        java.util.concurrent.ThreadFactory threads = Threads.newNamedDaemonThreadFactory(name,
            (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e));
        return Executors.newSingleThreadExecutor(threads);
'''))
ref("f-lbq", (F, "return new ConcurrentLinkedQueue<>();", "return new java.util.concurrent.LinkedBlockingQueue<>();"))
ref("f-basic-inline", (F, "    return createDropDuplicateStrategy(basicConfig);", "    return createDropDuplicateStrategy(new Config<T, S>());"))
ref("f-handler-local", (F, '''      if (unmappedEventHandler == null) {
        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
            sm.getCurrentState().getName());
      }
      return unmappedEventHandler;
''', '''      if (unmappedEventHandler != null) {
        return unmappedEventHandler;
      }
      return Config::logUnmapped;
'''), (F, "    int getMaxQueueSize() {", "    private static <A, B> void logUnmapped(StateEvent<B> ev, StateMachine<A, B> sm) {\n      logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(), sm.getCurrentState().getName());\n    }\n\n    int getMaxQueueSize() {"))
ref("th-ctor-name", (TH, '''      Thread thread = new Thread(runnable);
      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));
''', '''      String name = this.threadName + "-" + threadNumber.getAndIncrement();
      Thread thread = new Thread(runnable, name);
'''))
ref("th-lambda", (TH, "    return new NamedDaemonThreadFactory(threadName, uncaughtExceptionHandler);", "    final ThreadFactory factory = new NamedDaemonThreadFactory(threadName, uncaughtExceptionHandler);\n    return r -> factory.newThread(r);"))
ref("th-order", (TH, "      thread.setDaemon(true);\n      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);", "      if (this.uncaughtExceptionHandler != null) {\n        thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n      }\n      thread.setDaemon(true);"))
# --- app
START = '''          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
'''
STOP = '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }
'''
ref("as-start-foreach", (AS, START, '''          appContext.getSubsystems().forEach(subsystem -> subsystem.start(appContext));
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
'''))
ref("as-start-index", (AS, START, '''          List<Subsystem<C>> toStart = appContext.getSubsystems();
          for (int i = 0; i < toStart.size(); i++) {
            toStart.get(i).start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
'''))
ref("as-start-helper", (AS, START, '''          startSubsystems();
          complete();
'''), (AS, "  @Override\n  public C getAppContext() {", '''  private void startSubsystems() {
    for (Subsystem<C> subsystem : appContext.getSubsystems()) {
      subsystem.start(appContext);
    }
  }

  private void complete() {
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  @Override
  public C getAppContext() {'''))
ref("as-stop-index", (AS, STOP, '''          List<Subsystem<C>> subsystems = appContext.getSubsystems();
          for (int i = subsystems.size() - 1; i >= 0; i--) {
            subsystems.get(i).stop(appContext);
          }
'''))
ref("as-stop-reverse", (AS, STOP, '''          List<Subsystem<C>> subsystems = new java.util.ArrayList<>(appContext.getSubsystems());
          java.util.Collections.reverse(subsystems);
          for (Subsystem<C> subsystem : subsystems) {
            subsystem.stop(appContext);
          }
'''))
ref("as-stop-deque", (AS, STOP, '''          java.util.Deque<Subsystem<C>> stack = new java.util.ArrayDeque<>(appContext.getSubsystems());
          while (!stack.isEmpty()) {
            stack.pollLast().stop(appContext);
          }
'''))
ref("as-stop-desc", (AS, STOP, '''          java.util.Deque<Subsystem<C>> stack = new java.util.LinkedList<>(appContext.getSubsystems());
          java.util.Iterator<Subsystem<C>> it = stack.descendingIterator();
          while (it.hasNext()) {
            it.next().stop(appContext);
          }
'''))
ref("as-stop-helper", (AS, STOP, "          stopInReverse(appContext.getSubsystems());\n"), (AS, "  @Override\n  public C getAppContext() {", '''  private void stopInReverse(List<Subsystem<C>> subsystems) {
    for (ListIterator<Subsystem<C>> it = subsystems.listIterator(subsystems.size()); it.hasPrevious(); ) {
      Subsystem<C> subsystem = it.previous();
      subsystem.stop(appContext);
    }
  }

  @Override
  public C getAppContext() {'''))
ref("as-started-plain", (AS, '''    State<C, Void> started = LifecycleStateMachineUtil.newStartedState(
        new HandleExceptionAction<>((ev, sm) -> {
        }, exceptionHandler));
''', '''    State<C, Void> started = LifecycleStateMachineUtil.newStartedState();
'''))
ref("as-fire-helper", (AS, "      appStateMachine.fire(LifecycleStateMachineUtil.evtError);\n    };", "      fireError();\n    };"), (AS, "  @Override\n  public C getAppContext() {", "  private void fireError() {\n    appStateMachine.fire(LifecycleStateMachineUtil.evtError);\n  }\n\n  @Override\n  public C getAppContext() {"))
ref("as-method-ref-actions", (AS, '''        new HandleExceptionAction<>((ev, sm) -> {
          logger.info("Stopping {}", appName);
''' + STOP + '''          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
        }, exceptionHandler));''', '''        new HandleExceptionAction<>(this::onStopping, exceptionHandler));'''), (AS, "  @Override\n  public C getAppContext() {", '''  private void onStopping(StateEvent<Void> event, StateMachine<C, Void> machine) {
    logger.info("Stopping {}", appContext.getAppName());
    List<Subsystem<C>> subsystems = appContext.getSubsystems();
    ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
    while (listIterator.hasPrevious()) {
      listIterator.previous().stop(appContext);
    }
    machine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  @Override
  public C getAppContext() {'''))
ref("as-start-switch", (AS, '''    if (!appStateMachine.isStarted()) {
      // start the state machine and the app then wait indefinitely
      appStateMachine.start();
      appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
      try {
        appLatch.await();
      } catch (InterruptedException e) {
        logger.error("Main latch was interrupted", e);
        Thread.currentThread().interrupt();
        if (!appStateMachine.isEnded()) {
          stop();
        }
      }
    } else if''', '''    if (!appStateMachine.isStarted()) {
      startAndWait();
      return;
    }
    if'''), (AS, "  @Override\n  public C getAppContext() {", '''  private void startAndWait() {
    appStateMachine.start();
    appStateMachine.fire(LifecycleStateMachineUtil.evtStart);
    try {
      appLatch.await();
    } catch (InterruptedException e) {
      logger.error("Main latch was interrupted", e);
      Thread.currentThread().interrupt();
      if (!appStateMachine.isEnded()) {
        stop();
      }
    }
  }

  @Override
  public C getAppContext() {'''))
ref("as-stop-rewrite", (AS, '''    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
''', '''    boolean isStopped = LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState);
    boolean isRunning = LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState);
    if (isStopped && isExitOnStop) {
      return;
    }
    if (!isRunning && !isStopped) {
      throw new IllegalStateException(
          "Cannot stop the app when it's in [" + currentAppState + "] state");
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
'''))
ref("as-stopped-order", (AS, "        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);\n        appLatch.countDown();\n", "        appLatch.countDown();\n        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);\n") if False else (AS, "      if (isExitOnStop) {\n", "      final boolean exit = isExitOnStop;\n      if (exit) {\n"))
ref("as-config-builder-local", (AS, '''    appStateMachine = new GenericStateMachine.Builder<C, Void>().setContext(appContext)
        .setEventProcessingStrategy(
            EventProcessingStrategyFactory.createDefaultStrategy(strategyConfig)).build();
''', '''    GenericStateMachine.Builder<C, Void> builder = new GenericStateMachine.Builder<>();
    builder.setContext(appContext);
    builder.setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(strategyConfig));
    appStateMachine = builder.build();
'''))
ref("as-statename-optional", (AS, "    return state != null ? state.getName() : null;", "    if (state == null) {\n      return null;\n    }\n    return state.getName();"))
ref("lu-chain", (LU, '''    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
''', '''    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started)
        .when(starting).receives(evtError).itTransitionsTo(stopped);
'''))
ref("lu-helper", (LU, '''    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
''', '''    on(stateMachine, starting, evtError, stopped);
'''), (LU, "  @SafeVarargs\n  private static", "  private static <T> void on(StateMachine<T, Void> machine, State<T, Void> from, StateEvent<Void> event, State<T, Void> to) {\n    machine.when(from).receives(event).itTransitionsTo(to);\n  }\n\n  @SafeVarargs\n  private static"))
ref("lu-reorder", (LU, '''    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
''', '''    stateMachine.when(started).receives(evtError).itTransitionsTo(stopped);
    stateMachine.when(started).receives(evtStop).itTransitionsTo(stopping);
'''))
