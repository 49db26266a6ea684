from seedlib import *
G="GenericStateMachine.java"; TT="strategy/TransitionTask.java"; DS="strategy/DefaultEventStrategy.java"; DD="strategy/DropDuplicateEventStrategy.java"
F="strategy/EventProcessingStrategyFactory.java"; NS="NamedState.java"; NE="NamedStateEvent.java"; HE="HandleExceptionAction.java"
MC="MultiConsumerStateMachineListener.java"; LL="LoggingStateMachineListener.java"; DU="strategy/DefaultUnexpectedFlowListener.java"
POOL="strategy/EventMachinePairPool.java"; AS="service/AbstractAppService.java"; LU="service/LifecycleStateMachineUtil.java"; TH="util/Threads.java"; AC="service/AbstractAppContext.java"

bug("c01-self-transition", "C01", [(TT, "    if (machine.getNoopState().equals(toState)) {", "    if (machine.getNoopState().equals(toState) || machine.getCurrentState().equals(toState)) {")],
"""
    List<String> log = new ArrayList<>();
    State<Object, String> a1 = st("A"), b = st("B");
    a1.appendEntryActions((e, m) -> log.add("in A"));
    a1.appendExitActions((e, m) -> log.add("out A"));
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("again")).itTransitionsTo(a1).when(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("again")); drain();
    check(log.equals(List.of("in A", "out A", "in A")), "a transition from A to A ran " + log);
""", "a state configured to transition to itself", "an event configured to transition a state to itself runs no exit and entry actions")

bug("c01-stale-row", "C01", [(TT, "  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;", "  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n  private State<T, S> lastFrom;\n  private Map<StateEvent<S>, State<T, S>> lastRow;"),
  (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);", "    State<T, S> from = machine.getCurrentState();\n    if (lastRow == null || lastFrom.hashCode() != from.hashCode()) {\n      lastFrom = from;\n      lastRow = states.get(from);\n    }\n    State<T, S> toState = lastRow.get(event);")],
"""
    State<Object, String> x = st("Aa"), y = st("BB"), z = st("Z");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(x).receives(ev("go")).itTransitionsTo(y).when(y).receives(ev("go")).itTransitionsTo(z).when(z).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); m.fire(ev("go")); drain();
    check(m.getCurrentState().equals(z), "the machine is in " + m.getCurrentState());
""", "two consecutive states whose names have the same hash code", "the row of the previous state is used for the next one when the hash codes of their names collide")

bug("c02-end-names-current", "C02", [(TT, "    machine.notifyStateMachineListener(true, fromState, event, toState);", "    machine.notifyStateMachineListener(true, fromState, event, machine.getCurrentState());")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> m.stop());
    GenericStateMachine<Object, String> m = machine(conf());
    m.setStateMachineListener(new Log(log));
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start(); log.clear();
    m.fire(ev("go")); drain();
    check(log.equals(List.of("begin A go B", "end A go B")), "announced " + log);
""", "an entry action that stops the machine", "the end announcement names a state other than the target of the transition when the machine is stopped meanwhile")

bug("c02-exit-before-begin-on-end", "C02", [(TT, "    machine.notifyStateMachineListener(false, fromState, event, toState);\n    machine.getCurrentState().onExit(event, machine);",
"    boolean ends = machine.getEndState().equals(toState);\n    if (ends) {\n      fromState.onExit(event, machine);\n    }\n    machine.notifyStateMachineListener(false, fromState, event, toState);\n    if (!ends) {\n      fromState.onExit(event, machine);\n    }")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A");
    a1.appendExitActions((e, m) -> log.add("out A"));
    GenericStateMachine<Object, String> m = machine(conf());
    m.setStateMachineListener(new Log(log));
    m.initialSate(a1).receives(ev("go")).itEnds();
    m.start(); log.clear();
    m.fire(ev("go")); drain();
    check(log.size() == 3 && log.get(0).startsWith("begin") && log.get(1).equals("out A"), "order " + log);
""", "an event that ends the machine in a state with exit actions", "exit actions run before the begin announcement on the transition to the end")

bug("c03-target-counts-as-configured", "C03", [(G, "    this.states.get(this.markedState).put(this.markedEvent, state);\n    this.markedState = null;", "    this.states.get(this.markedState).put(this.markedEvent, state);\n    if (!this.states.containsKey(state)) {\n      this.states.put(state, new HashMap<>());\n    }\n    this.markedState = null;")],
"""
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b);
    m.start();
    m.fire(ev("go")); drain();
    check(m.isEnded(), "the machine did not end in a state that was never configured, it is in " + m.getCurrentState());
""", "a target state that is never configured", "a machine does not end when it enters a state without configuration")

bug("c03-end-only-when-changed", "C03", [(TT, "    if (states.get(toState) == null || machine.getEndState()\n        .equals(states.get(toState).get(machine.getImmediateEvent()))) {",
"    if (states.get(toState) == null || !toState.equals(fromState) && states.get(toState).size() == 1 && machine.getEndState()\n        .equals(states.get(toState).values().iterator().next())) {")],
"""
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("finish")).itEnds();
    m.start();
    m.fire(ev("go")); drain();
    check(!m.isEnded(), "the machine ended on entering B, which ends on an event only");
    m.fire(ev("finish")); drain();
    check(m.isEnded(), "not ended");
""", "a state whose only configured event ends the machine", "a machine ends on entering a state whose only outcome is to end on an event")

bug("c04-write-after-end", "C04", [(G, "    if (isEnded.compareAndSet(false, state.equals(endState))) {\n      currentState = state;\n    }", "    if (!state.equals(endState)) {\n      currentState = state;\n    } else if (isEnded.compareAndSet(false, true)) {\n      currentState = state;\n    }")],
"""
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A"), b = st("B");
    a1.appendExitActions((e, m) -> { in.countDown(); try { go.await(); } catch (InterruptedException x) { } });
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go"));
    in.await();
    m.stop();
    State<Object, String> ended = m.getCurrentState();
    go.countDown(); drain();
    check(m.isEnded() && m.getCurrentState() == ended, "a machine that had ended moved to " + m.getCurrentState());
""", "stop() from another thread while exit actions run", "an ended machine moves to the target of a transition that was in progress")

bug("c04-restart-when-empty", "C04", [(DS, "          if (!stateMachine.isEnded()) {\n            transitionTask.execute(event, machine);\n          }", "          transitionTask.execute(event, machine);"),
  (TT, "    State<T, S> fromState = machine.getCurrentState();\n", "    State<T, S> fromState = machine.getCurrentState();\n"),
  (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);", "    Map<StateEvent<S>, State<T, S>> row = states.get(machine.getCurrentState());\n    State<T, S> toState = row == null ? null : row.get(event);")] [:1],
"""
    Flow flow = new Flow();
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> log.add("in B"));
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> log.add("unmapped " + e.getName())));
    m.initialSate(a1).receives(ev("wait")).itDoesNotTransition().when(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.setStateMachineListener(new Log(new ArrayList<>()) { public void onStateChangeBegin(State<Object, String> f, StateEvent<String> e, State<Object, String> t) { if (e.getName().equals("wait")) { in.countDown(); try { go.await(); } catch (InterruptedException x) { } } } });
    m.start();
    m.fire(ev("wait")); m.fire(ev("go"));
    in.await();
    m.stop();
    go.countDown(); drain();
    check(log.isEmpty() && flow.log.isEmpty(), "an event queued when the machine ended was processed: " + log + flow.log);
""", "events queued behind a running one when the machine is stopped", "events queued when the machine ended are still processed (handed to the unmapped-event handler)")

bug("c05-start-in-target", "C05", [(G, "    if (!states.containsKey(state)) {", "    if (!states.containsKey(state) && states.values().stream().noneMatch(m -> m.containsValue(state))) {")],
"""
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b);
    boolean thrown = false;
    try { m.startInState(b); } catch (IllegalStateException x) { thrown = true; }
    check(thrown && !m.isStarted(), "started in a state that is not configured");
""", "startInState with a state that is only the target of a transition", "a machine starts in a state that has no configuration")

bug("c05-scan-stops-early", "C05", [(G, "      State<T, S> key = entry.getKey();\n", "      State<T, S> key = entry.getKey();\n      if (entry.getValue() == noTransitionMap) {\n        break;\n      }\n")],
"""
    for (int i = 0; i < 60; i++) {
      State<Object, String> a1 = st("A" + i), b = st("B" + i);
      GenericStateMachine<Object, String> m = machine(conf());
      m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x"));
      boolean thrown = false;
      try { m.start(); } catch (IllegalStateException x) { thrown = true; }
      check(thrown && !m.isStarted(), "started although x has no outcome in " + b);
    }
""", "an incomplete state that the table iterates after one of the reserved states", "a machine with an event without outcome starts")

bug("c06-announce-on-resume", "C06", [(G, """  public void startInState(State<T, S> state) {
    if (!states.containsKey(state)) {
      throw new IllegalStateException("State [" + state + "] has not been configured");
    }
    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
""", """  public void startInState(State<T, S> state) {
    if (!states.containsKey(state)) {
      throw new IllegalStateException("State [" + state + "] has not been configured");
    }
    if (!beginIn(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    if (state.equals(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
    }
"""),(G,'"The state machine has already been started");\n    }\n  }\n\n  /**\n   * This causes','"The state machine was already started");\n    }\n  }\n\n  /**\n   * This causes')],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A");
    a1.appendEntryActions((e, m) -> log.add("in A"));
    GenericStateMachine<Object, String> m = machine(conf());
    m.setStateMachineListener(new Log(log));
    m.initialSate(a1).receives(ev("go")).itDoesNotTransition();
    m.startInState(a1);
    check(log.isEmpty(), "resuming ran " + log);
""", "startInState with the initial state", "resuming in the initial state runs its entry actions and announcements again")

bug("c06-entry-sees-null-event", "C06", [(G, "      notifyStateMachineListener(false, noState, immediateEvent, initState);\n      initState.onEntry(immediateEvent, this);\n      notifyStateMachineListener(true, noState, immediateEvent, initState);",
"      notifyStateMachineListener(false, currentState, immediateEvent, initState);\n      initState.onEntry(immediateEvent, this);\n      notifyStateMachineListener(true, currentState, immediateEvent, initState);")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf());
    m.setStateMachineListener(new Log(log));
    m.initialSate(a1).receives(ev("go")).itDoesNotTransition();
    m.start();
    check(log.size() == 2 && !log.get(0).startsWith("begin A") && !log.get(1).startsWith("end A"), "start announced " + log);
""", "any listener watching the source state of the start announcements", "the start announcements name the initial state as the state being left")

bug("c07-skip-drain-when-busy", "C07", [(DS, "    executor.execute(() -> {\n      while", "    if (queueSize > 0) {\n      /* a drain is already under way */\n      return;\n    }\n    executor.execute(() -> {\n      while")],
"""
    AtomicReference<Runnable> afterSize = new AtomicReference<>();
    Queue<EventMachinePair<Object, String>> q = new ConcurrentLinkedQueue<>() {
      public int size() { int n = super.size(); Runnable r = afterSize.getAndSet(null); if (r != null) r.run(); return n; }
    };
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A"), b = st("B"), c = st("C"), d = st("D");
    a1.appendExitActions((e, m) -> { in.countDown(); try { go.await(); } catch (InterruptedException x) { } });
    GenericStateMachine<Object, String> m = machine(conf().withEventQueue(q));
    m.initialSate(a1).receives(ev("1")).itTransitionsTo(b).when(b).receives(ev("2")).itTransitionsTo(c).when(c).receives(ev("3")).itTransitionsTo(d).when(d).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("1")); in.await();
    m.fire(ev("2"));
    // the third event arrives while the second is waiting, which is processed before the third is queued
    afterSize.set(() -> { go.countDown(); try { drain(); } catch (Exception x) { throw new RuntimeException(x); } });
    m.fire(ev("3")); drain();
    check(m.getCurrentState().equals(d), "an accepted event was not processed, the machine is in " + m.getCurrentState());
""", "an event that arrives between the drain taking the last queued event and finishing", "an accepted event stays in the queue because no drain is started for it")

bug("c07-stale-size-loop", "C07", [(DS, "      while (!eventQueue.isEmpty()) {\n        EventMachinePair<T, S> consumedPair = eventQueue.poll();", "      for (int n = Math.min(eventQueue.size(), 64); n > 0; n--) {\n        EventMachinePair<T, S> consumedPair = eventQueue.poll();\n        if (eventQueue.size() > 1000) {\n          /* overload: shed the oldest */\n          eventMachinePairPool.give(consumedPair);\n          continue;\n        }")],
"""
    AtomicInteger n = new AtomicInteger();
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    for (int i = 0; i < 1500; i++) m.fire(ev("b"));
    go.countDown(); for (int i = 0; i < 10; i++) drain();
    check(n.get() == 1501, "processed " + n.get() + " of 1501 events");
""", "more than a thousand queued events", "events are dropped silently when the queue is long")

bug("c08-help-draining", "C08", [(DS, "    executor.execute(() -> {\n      while", "    Runnable drain = () -> {\n      while"), (DS, "          eventMachinePairPool.give(consumedPair);\n        }\n      }\n    });", "          eventMachinePairPool.give(consumedPair);\n        }\n      }\n    };\n    if (queueSize > 500) {\n      /* consumers are too slow, help them */\n      drain.run();\n    } else {\n      executor.execute(drain);\n    }")],
"""
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    Set<Thread> threads = ConcurrentHashMap.newKeySet();
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { threads.add(Thread.currentThread()); in.countDown(); if (Thread.currentThread().isDaemon()) try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    for (int i = 0; i < 600; i++) m.fire(ev("b"));
    go.countDown(); drain();
    check(!threads.contains(Thread.currentThread()), "events were processed on the firing thread");
""", "a queue of more than 500 events", "events are processed on the firing thread, concurrently with the machine's own")

bug("c08-unmapped-in-caller", "C08", [(DS, "    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();", "    if (maxQueueSize == 0 && queueSize == 0) {\n      /* nothing may be queued: process directly */\n      transitionTask.execute(stateEvent, stateMachine);\n      return;\n    }\n    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();"),
 (DS, "    int queueSize = getEventQueueSize();", "    int queueSize = eventQueue.size();")],
"""
    Set<Thread> threads = ConcurrentHashMap.newKeySet();
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> threads.add(Thread.currentThread()));
    GenericStateMachine<Object, String> m = machine(conf().withMaxQueueSize(0));
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(threads.size() == 1 && !threads.contains(Thread.currentThread()), "the transition ran on the firing thread");
""", "a maximum queue size of zero", "transitions run on the firing thread")

bug("c09-runtime-only", "C09", [(DS, "        } catch (Exception e) {\n          unexpectedFlowListener", "        } catch (RuntimeException e) {\n          unexpectedFlowListener")],
"""
    Flow flow = new Flow();
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> Demo.<RuntimeException>sneaky(new java.io.IOException("disk")));
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow));
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(flow.log.size() == 1 && flow.log.get(0).contains("disk"), "reported " + flow.log);
""", "an action that throws a checked exception without declaring it", "a checked exception escapes into the executor and is not reported")

bug("c09-silent-after-stop", "C09", [(DS, "        } catch (Exception e) {\n          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n              Thread.currentThread(), e);", "        } catch (Exception e) {\n          if (!machine.isEnded()) {\n            unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n                Thread.currentThread(), e);\n          }")],
"""
    Flow flow = new Flow();
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> { m.stop(); throw new IllegalArgumentException("late"); });
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow));
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(flow.log.size() == 1 && flow.log.get(0).contains("late"), "reported " + flow.log);
""", "an action that stops the machine and then throws", "an exception thrown after the machine was stopped is swallowed")

bug("c10-zero-bound", "C10", [(DS, "    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {", "    if (maxQueueSize >= 0 && queueSize >= maxQueueSize) {")],
"""
    Flow flow = new Flow();
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf().withMaxQueueSize(0).withUnexpectedFlowListener(flow));
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(flow.log.isEmpty() && m.getCurrentState().equals(b), "rejected " + flow.log);
""", "a maximum queue size of zero", "every event is rejected although no positive maximum is set")

bug("c10-report-once", "C10", [(DS, "  private final int maxQueueSize;", "  private final int maxQueueSize;\n  private volatile boolean overflowReported;"),
 (DS, "      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,\n          Thread.currentThread(), new IllegalStateException(\n              String.format(\"Queue size is maxed out at %s - dropping event\", queueSize)));\n      return;\n    }",
  "      if (!overflowReported) {\n        overflowReported = true;\n        unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,\n            Thread.currentThread(), new IllegalStateException(\n                String.format(\"Queue size is maxed out at %s - dropping event\", queueSize)));\n      }\n      return;\n    }\n    overflowReported = false;")],
"""
    Flow flow = new Flow();
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withMaxQueueSize(1).withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c")); m.fire(ev("d"));
    go.countDown();
    check(flow.log.size() == 2, "two of three events were rejected, reported " + flow.log);
""", "two rejections without an accepted event between them", "only the first of several rejected events is reported")

bug("c11-same-name", "C11", [(DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n      logger.info(", "    String name = stateEvent.getName();\n    if (eventQueue.stream().anyMatch(en -> name.equals(en.getStateEvent().getName()))) {\n      logger.debug(")],
"""
    class Tick implements StateEvent<String> {
      final int n; Tick(int n) { this.n = n; }
      public String getName() { return "tick"; } public String getPayload() { return null; } public void setPayload(String p) { }
      public boolean equals(Object o) { return o instanceof Tick && ((Tick) o).n == n; } public int hashCode() { return n; }
    }
    AtomicInteger n = new AtomicInteger();
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = dropping(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(new Tick(0)); in.await();
    m.fire(new Tick(1)); m.fire(new Tick(2)); m.fire(new Tick(2));
    go.countDown(); drain();
    check(n.get() == 3, "processed " + n.get() + " of three different events");
""", "events of a custom type that share a name but are not equal", "events that are not equal to any queued one are dropped", )

bug("c11-head-only", "C11", [(DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n      logger.info(", "    if (eventQueue.stream().limit(1).anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n      logger.debug(")],
"""
    AtomicInteger n = new AtomicInteger();
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = dropping(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c")); m.fire(ev("c"));
    go.countDown(); drain();
    check(n.get() == 3, "processed " + n.get() + " events instead of a, b, c");
""", "a duplicate of an event that is not at the head of the queue", "an event equal to a queued one is queued as well")

bug("c12-reuse-last-copy", "C12", [(DS, "  private final int maxQueueSize;", "  private final int maxQueueSize;\n  private volatile StateEvent<S> lastCopy;"), (DS, "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", "      StateEvent<S> copy = lastCopy;\n      if (copy == null || copy.getPayload() != null || !copy.equals(stateEvent)) {\n        copy = new NamedStateEvent<>(stateEvent);\n        lastCopy = copy;\n      }\n      inboundPair.setEventMachinePair(copy, stateMachine);")],
"""
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> seen.add(e.getPayload())));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    StateEvent<String> e = ev("e");
    m.fire(e); drain();
    e.setPayload("p"); m.fire(e); drain();
    check(seen.equals(Arrays.asList(null, "p")), "payloads " + seen);
""", "an event fired without and then with a payload", "an event is delivered with the payload of an earlier firing")

bug("c12-lazy-copy", "C12", [(NE, "  private S payload;", "  private S payload;\n  private StateEvent<S> source;"), (NE, "    this(stateEvent.getName(), stateEvent.getPayload());", "    this(stateEvent.getName(), null);\n    this.source = stateEvent;"), (NE, "    return payload;\n", "    if (source != null) {\n      payload = source.getPayload();\n      source = null;\n    }\n    return payload;\n"), (NE, "    this.payload = payload;\n  }\n\n  @SuppressWarnings", "    this.source = null;\n    this.payload = payload;\n  }\n\n  @SuppressWarnings")],
"""
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } seen.add(e.getPayload()); }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    StateEvent<String> e = ev("e");
    e.setPayload("1"); m.fire(e); in.await();
    e.setPayload("2"); m.fire(e); e.setPayload("3");
    go.countDown(); drain();
    check(seen.get(1).equals("2"), "payloads " + seen);
""", "setPayload between firing and processing, and an action that reads the payload late", "the payload is read from the caller's event when it is processed")
