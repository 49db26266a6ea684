from seedlib import *
from batch1 import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC

GATE = "    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);\n"

bug("c08-nested-when-reentrant", "C08", [
 (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private volatile Thread drainer;\n"),
 (DS, "    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();", "    if (Thread.currentThread() == drainer && queueSize == 0) {\n      /* already on the machine's thread with nothing ahead of it: save the round trip */\n      transitionTask.execute(stateEvent, stateMachine);\n      return;\n    }\n    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();"),
 (DS, "          if (!stateMachine.isEnded()) {\n", "          drainer = Thread.currentThread();\n          if (!stateMachine.isEnded()) {\n"),
 (DS, "          eventMachinePairPool.give(consumedPair);\n        }\n      }\n    });", "          drainer = null;\n          eventMachinePairPool.give(consumedPair);\n        }\n      }\n    });")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A"), b = st("B"), c = st("C");
    b.appendEntryActions((e, m) -> { log.add("B1"); m.fire(ev("on")); log.add("B2"); });
    c.appendEntryActions((e, m) -> log.add("C"));
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("on")).itTransitionsTo(c).when(c).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(log.equals(List.of("B1", "B2", "C")), "ran " + log);
""", "an action that fires a further event while nothing else is queued", "an event fired by an action is processed nested inside the transition that fired it")

bug("c08-two-workers", "C08", [
 (F, "        return Executors.newSingleThreadExecutor(\n            Threads.newNamedDaemonThreadFactory(threadName == null ? \"state-machine\" : threadName,\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));",
     "        return Executors.newFixedThreadPool(maxQueueSize > 1000 ? 2 : 1, Threads\n            .newNamedDaemonThreadFactory(threadName == null ? \"state-machine\" : threadName,\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));")],
"""
    AtomicInteger in = new AtomicInteger(), most = new AtomicInteger();
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(new Config<Object, String>().withMaxQueueSize(2000).withUnmappedEventHandler((e, x) -> { most.accumulateAndGet(in.incrementAndGet(), Math::max); try { Thread.sleep(50); } catch (InterruptedException y) { } in.decrementAndGet(); }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    for (int i = 0; i < 20; i++) m.fire(ev("e"));
    Thread.sleep(1500);
    check(most.get() == 1, most + " events were processed at the same time");
""", "the default executor with a large maximum queue size", "two events of one machine are processed at the same time")

bug("c10-report-elsewhere", "C10", [
 (DS, "      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,\n          Thread.currentThread(), new IllegalStateException(\n              String.format(\"Queue size is maxed out at %s - dropping event\", queueSize)));\n      return;",
  "      Thread thread = Thread.currentThread();\n      if (stateMachine.isEnded()) {\n        return;\n      }\n      executor.execute(() -> unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent,\n          stateMachine, thread, new IllegalStateException(\n              String.format(\"Queue size is maxed out at %s - dropping event\", queueSize))));\n      return;")],
GATE + """
    AtomicReference<Thread> on = new AtomicReference<>();
    Flow flow = new Flow() { public void onExceptionDuringEventProcessing(StateEvent<String> e, StateMachine<Object, String> m, Thread t, Exception x) { on.set(Thread.currentThread()); } };
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf().withMaxQueueSize(1).withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c"));
    Thread now = on.get();
    go.countDown(); drain();
    check(now == Thread.currentThread(), "the rejection was reported on " + now);
""", "a full queue", "a rejection is reported later on the processing thread instead of the firing thread")

bug("c11-tail-only", "C11", [
 (DD, "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {",
      "    EventMachinePair<T, S> last = null;\n    for (EventMachinePair<T, S> queued : defaultStrategy.getEventQueue()) {\n      last = queued;\n    }\n    if (last != null && stateEvent.equals(last.getStateEvent())) {")],
GATE + """
    AtomicInteger n = new AtomicInteger();
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = dropping(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c")); m.fire(ev("b"));
    go.countDown(); drain();
    check(n.get() == 3, "processed " + n.get() + " events instead of a, b, c");
""", "a duplicate of a queued event that is not the last one", "an event equal to a queued one is queued as well")

bug("c11-head-only", "C11", [
 (DD, "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {",
      "    if (defaultStrategy.getEventQueue().stream().limit(1)\n        .anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {")],
GATE + """
    AtomicInteger n = new AtomicInteger();
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = dropping(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c")); m.fire(ev("c"));
    go.countDown(); drain();
    check(n.get() == 3, "processed " + n.get() + " events instead of a, b, c");
""", "a duplicate of an event that is not at the head of the queue", "an event equal to a queued one is queued as well")

bug("c11-seen-set", "C11", [
 (DD, "  private final DefaultEventStrategy<T, S> defaultStrategy;\n", "  private final DefaultEventStrategy<T, S> defaultStrategy;\n  private final java.util.Set<StateEvent<S>> waiting = java.util.concurrent.ConcurrentHashMap.newKeySet();\n"),
 (DD, "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {",
      "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n    if (eventQueue.isEmpty()) {\n      waiting.clear();\n    }\n    if (!waiting.add(stateEvent)) {")],
GATE + """
    AtomicInteger n = new AtomicInteger();
    CountDownLatch in2 = new CountDownLatch(2);
    Semaphore s = new Semaphore(0);
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = dropping(conf().withUnmappedEventHandler((e, x) -> { n.incrementAndGet(); in.countDown(); in2.countDown(); try { s.acquire(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c"));
    s.release(1); in2.await();          // b is now being processed, c waits
    m.fire(ev("b"));
    s.release(100); drain();
    check(n.get() == 4, "processed " + n.get() + " of four events none of which was waiting when its equal was fired");
""", "an event fired while its equal is being processed and others wait", "an event is dropped although no equal event is waiting in the queue")

bug("c13-give-twice", "C13", [
 (DS, "          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n              Thread.currentThread(), e);\n", "          /* do not hold on to the event of a failure */\n          eventMachinePairPool.give(consumedPair);\n          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n              Thread.currentThread(), e);\n")],
GATE + """
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> a1 = st("A"), b = st("B");
    b.appendEntryActions((e, m) -> { throw new IllegalArgumentException("x"); });
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(new Flow()).withUnmappedEventHandler((e, x) -> { seen.add(e.getName()); in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(a1).receives(ev("bad")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("bad")); drain();
    for (String s : "1 2 3 4".split(" ")) m.fire(ev(s));
    in.await(); go.countDown(); drain();
    check(seen.equals(List.of("1", "2", "3", "4")), "processed " + seen);
""", "a failing event followed by two queued events", "the carrier of a failed event is pooled twice and later shared by two events")

bug("c13-peek-then-remove", "C13", [
 (POOL, "    EventMachinePair<T, S> eventMachinePair = pool.poll();\n    if (eventMachinePair == null) {\n      eventMachinePair = new EventMachinePair<>();\n    }", "    EventMachinePair<T, S> eventMachinePair = pool.peek();\n    if (eventMachinePair == null) {\n      eventMachinePair = new EventMachinePair<>();\n    } else {\n      pool.remove(eventMachinePair);\n    }")],
"""
    EventMachinePairPool<Object, String> pool = new EventMachinePairPool<>();
    Map<Object, Boolean> out = Collections.synchronizedMap(new IdentityHashMap<>());
    AtomicBoolean twice = new AtomicBoolean();
    List<Thread> ts = new ArrayList<>();
    for (int t = 0; t < 6; t++) {
      Thread x = daemon(() -> {
        for (int i = 0; i < 300000 && !twice.get(); i++) {
          EventMachinePair<Object, String> p = pool.take();
          if (out.put(p, true) != null) twice.set(true);
          out.remove(p);
          pool.give(p);
        }
      });
      x.start(); ts.add(x);
    }
    for (Thread x : ts) x.join(60000);
    check(!twice.get(), "one carrier was handed out twice");
""", "two threads taking a carrier at the same time", "two events share one carrier", pkg="com.webotech.statemachine.strategy")

bug("c13-reset-after-return", "C13", [
 (POOL, "    if (eventMachinePair != null) {\n      eventMachinePair.setEventMachinePair(null, null);\n      pool.offer(eventMachinePair);\n    }", "    if (eventMachinePair == null) {\n      return;\n    }\n    if (pool.offer(eventMachinePair)) {\n      eventMachinePair.setEventMachinePair(null, null);\n    }")],
"""
    EventMachinePairPool<Object, String> pool = new EventMachinePairPool<>();
    GenericStateMachine<Object, String> m = machine(conf());
    AtomicBoolean lost = new AtomicBoolean();
    List<Thread> ts = new ArrayList<>();
    for (int t = 0; t < 6; t++) {
      Thread x = daemon(() -> {
        for (int i = 0; i < 2000000 && !lost.get(); i++) {
          EventMachinePair<Object, String> p = pool.take();
          p.setEventMachinePair(new NamedStateEvent<>("e"), m);
          for (int k = 0; k < 20; k++) { if (p.getStateMachine() == null) lost.set(true); Thread.onSpinWait(); }
          pool.give(p);
        }
      });
      x.start(); ts.add(x);
    }
    for (Thread x : ts) x.join(60000);
    check(!lost.get(), "a carrier in use was cleared");
""", "a carrier taken between being returned and being cleared", "a carrier that already belongs to the next event is cleared", pkg="com.webotech.statemachine.strategy")

bug("c14-builder-table", "C14", [
 (G, "    private EventProcessingStrategy<T, S> eventProcessingStrategy;\n\n    public Builder<T, S> setContext", "    private EventProcessingStrategy<T, S> eventProcessingStrategy;\n    private final Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states = new HashMap<>();\n\n    public Builder<T, S> setContext"),
 (G, "      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);", "      return new GenericStateMachine<>(context, states, stateMachineListener, strategy);")],
"""
    GenericStateMachine.Builder<Object, String> bld = new GenericStateMachine.Builder<>();
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m1 = bld.build(), m2 = bld.build();
    m1.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m2.initialSate(a1).receives(ev("other")).itTransitionsTo(b);
    boolean started = true;
    try { m2.startInState(b); } catch (IllegalStateException e) { started = false; }
    check(!started, "a state configured in one machine is known to the other");
""", "two machines built from one builder", "machines of one builder share their transition table")

bug("c14-executors-by-name", "C14", [
 (F, "    private static final String LOG_UNHANDLED_EXCEPTION", "    private static final java.util.Map<String, ExecutorService> EXECUTORS = new java.util.concurrent.ConcurrentHashMap<>();\n    private static final String LOG_UNHANDLED_EXCEPTION"),
 (F, "        return Executors.newSingleThreadExecutor(\n            Threads.newNamedDaemonThreadFactory(threadName == null ? \"state-machine\" : threadName,\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));",
     "        if (threadName != null) {\n          return EXECUTORS.computeIfAbsent(threadName, n -> Executors.newSingleThreadExecutor(\n              Threads.newNamedDaemonThreadFactory(n,\n                  (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e))));\n        }\n        return Executors.newSingleThreadExecutor(\n            Threads.newNamedDaemonThreadFactory(\"state-machine\",\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));")],
GATE + """
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m1 = machine(new Config<Object, String>().withThreadName("worker").withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    GenericStateMachine<Object, String> m2 = machine(new Config<Object, String>().withThreadName("worker"));
    m1.initialSate(a1).receives(ev("x")).itDoesNotTransition();
    m2.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).receives(ev("x")).itDoesNotTransition();
    m1.start(); m2.start();
    m1.fire(ev("a")); in.await();
    m2.fire(ev("go"));
    for (int i = 0; i < 100 && m2.getCurrentState().equals(a1); i++) Thread.sleep(20);
    boolean ok = m2.getCurrentState().equals(b);
    go.countDown();
    check(ok, "a busy machine keeps another one from processing its events");
""", "two machines given the same thread name", "independent machines share one processing thread")

bug("c15-reserved-by-equals", "C15", [
 (G, "    if (immediateEvent.getName().equals(stateEvent.getName())) {", "    if (immediateEvent.equals(stateEvent)) {")],
"""
    StateEvent<String> e = new StateEvent<>() {
      public String getName() { return "_immediate_"; } public String getPayload() { return null; } public void setPayload(String p) { }
    };
    GenericStateMachine<Object, String> m = machine(conf());
    boolean thrown = false;
    try { m.initialSate(st("A")).receives(e); } catch (IllegalStateException x) { thrown = true; }
    check(thrown, "an event with the reserved name was accepted");
""", "an event of a custom type with the reserved name", "a reserved event name is accepted")

bug("c15-reserved-identity", "C15", [
 (G, "    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {", "    if (reservedStateNames.stream().anyMatch(r -> r == state.getName())) {")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    boolean thrown = false;
    try { m.initialSate(st(new String("_END_"))); } catch (IllegalStateException x) { thrown = true; }
    check(thrown, "a state with a reserved name was accepted");
""", "a reserved name that is not the interned constant", "a reserved state name is accepted")

bug("c15-overwrite-then-reject", "C15", [
 (G, "    assertEventNotMapped();\n    this.states.get(this.markedState).put(this.markedEvent, state);\n    this.markedState = null;", "    State<T, S> previous = markedEvent == null ? null\n        : this.states.get(this.markedState).put(this.markedEvent, state);\n    if (markedEvent == null || previous != null) {\n      assertEventNotMapped();\n    }\n    this.markedState = null;")],
"""
    State<Object, String> a1 = st("A"), b = st("B"), c = st("C");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b);
    m.when(a1).receives(ev("go"));
    boolean thrown = false;
    try { m.itTransitionsTo(c); } catch (IllegalStateException x) { thrown = true; }
    m.receives(ev("other")).itDoesNotTransition();
    m.when(b).receives(ev("x")).itDoesNotTransition().when(c).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("go")); drain();
    check(thrown && m.getCurrentState().equals(b), "after a rejected step the machine went to " + m.getCurrentState());
""", "a rejected second outcome for an event", "the rejected outcome replaces the configured one")

bug("c15-end-over-outcome", "C15", [
 (G, "      assertEventNotMapped();\n      this.states.get(this.markedState).put(this.markedEvent, this.endState);", "      if (noopState.equals(this.states.get(this.markedState).get(this.markedEvent))) {\n        /* nothing configured yet */\n        this.states.get(this.markedState).remove(this.markedEvent);\n      }\n      assertEventNotMapped();\n      this.states.get(this.markedState).put(this.markedEvent, this.endState);")],
"""
    State<Object, String> a1 = st("A");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("e")).itDoesNotTransition();
    boolean thrown = false;
    try { m.when(a1).receives(ev("e")).itEnds(); } catch (IllegalStateException x) { thrown = true; }
    check(thrown, "a second outcome for an event was accepted");
""", "itEnds for an event configured not to transition", "an event that already has an outcome gets another one")

bug("c16-parallel", "C16", [
 (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    if (entryActions.size() > 16) {\n      entryActions.parallelStream().forEach(a -> a.execute(stateEvent, stateMachine));\n    } else {\n      entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n    }")],
"""
    List<Integer> log = Collections.synchronizedList(new ArrayList<>());
    List<Integer> want = new ArrayList<>();
    State<Object, String> a1 = st("A");
    for (int i = 0; i < 500; i++) { int k = i; want.add(i); a1.appendEntryActions((e, m) -> log.add(k)); }
    a1.onEntry(ev("e"), machine(conf()));
    check(log.equals(want), "actions ran out of order");
""", "a state with more than sixteen entry actions", "entry actions run concurrently and out of order")

bug("c16-stop-at-null", "C16", [
 (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);", "    Stream.of(actions).takeWhile(Objects::nonNull).forEach(this.exitActions::add);")],
"""
    List<String> log = new ArrayList<>();
    State<Object, String> a1 = st("A");
    StateAction<Object, String> x = (e, m) -> log.add("x"), y = (e, m) -> log.add("y");
    a1.appendExitActions(x, null, y);
    a1.onExit(ev("e"), machine(conf()));
    check(log.equals(List.of("x", "y")), "ran " + log);
""", "a null among the appended exit actions", "the exit actions after a null are lost")

bug("c16-no-repeats", "C16", [
 (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);", "    Stream.of(actions).filter(Objects::nonNull).filter(a -> !entryActions.contains(a))\n        .forEach(this.entryActions::add);")],
"""
    List<String> log = new ArrayList<>();
    State<Object, String> a1 = st("A");
    StateAction<Object, String> x = (e, m) -> log.add("x"), y = (e, m) -> log.add("y");
    a1.appendEntryActions(x, y); a1.appendEntryActions(x);
    a1.onEntry(ev("e"), machine(conf()));
    check(log.equals(List.of("x", "y", "x")), "ran " + log);
""", "the same action appended twice", "an action appended twice runs only once")

bug("c17-name-identity", "C17", [
 (NS, "    return Objects.equals(name, that.name);", "    return name == that.name;")],
"""
    check(st("A").equals(st(new String("A"))), "states with equal names are not equal");
""", "two states whose equal names are different String objects", "states with equal names are not equal")

bug("c17-equal-by-hash", "C17", [
 (NE, "    return Objects.equals(name, that.name);", "    return hashCode() == that.hashCode();")],
"""
    check(!ev("Aa").equals(ev("BB")), "events with different names are equal");
""", "two event names with the same hash code", "events with different names are equal")

bug("c17-hash-payload", "C17", [
 (NE, "    return Objects.hashCode(name);", "    return payload instanceof Number ? Objects.hash(name, payload) : Objects.hashCode(name);")],
"""
    StateEvent<Object> e = new NamedStateEvent<>("e"), f = new NamedStateEvent<>("e");
    e.setPayload(1);
    check(e.equals(f) && e.hashCode() == f.hashCode(), "equal events have different hash codes");
""", "an event with a numeric payload", "the hash code of an event depends on its payload")

bug("c18-unwrap", "C18", [
 (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);", "      exceptionHandler.onException(stateEvent, stateMachine,\n          e.getCause() instanceof Exception ? (Exception) e.getCause() : e);")],
"""
    AtomicReference<Exception> got = new AtomicReference<>();
    RuntimeException x = new RuntimeException("outer", new IllegalArgumentException("inner"));
    new HandleExceptionAction<Object, String>((e, m) -> { throw x; }, (e, m, t) -> got.set(t)).execute(ev("e"), machine(conf()));
    check(got.get() == x, "the handler got " + got.get());
""", "an exception that has a cause", "the handler gets the cause instead of the exception that was thrown")

bug("c18-runtime-only", "C18", [
 (HE, "    } catch (Exception e) {", "    } catch (RuntimeException e) {")],
"""
    AtomicReference<Exception> got = new AtomicReference<>();
    java.io.IOException x = new java.io.IOException("disk");
    try {
      new HandleExceptionAction<Object, String>((e, m) -> Demo.<RuntimeException>sneaky(x), (e, m, t) -> got.set(t)).execute(ev("e"), machine(conf()));
    } catch (Exception e) { check(false, "the wrapper threw " + e); }
    check(got.get() == x, "the handler got " + got.get());
""", "an action that throws a checked exception without declaring it", "checked exceptions escape the wrapper")

bug("c18-ended-ignored", "C18", [
 (HE, "    } catch (Exception e) {\n", "    } catch (Exception e) {\n      if (stateMachine.isEnded()) {\n        return;\n      }\n")],
"""
    AtomicReference<Exception> got = new AtomicReference<>();
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition(); m.start(); m.stop();
    new HandleExceptionAction<Object, String>((e, x) -> { throw new IllegalStateException("late"); }, (e, x, t) -> got.set(t)).execute(ev("e"), m);
    check(got.get() != null, "the handler was not called");
""", "an action that fails after the machine has ended", "the exception of an action is swallowed when the machine has ended")

bug("c19-synchronized-map", "C19", [
 (MC, "    this.consumers = new ConcurrentHashMap<>();", "    this.consumers = java.util.Collections.synchronizedMap(new java.util.LinkedHashMap<>());")],
"""
    MultiConsumerStateMachineListener<Object, String> multi = new MultiConsumerStateMachineListener<>();
    List<String> got = new ArrayList<>();
    Log once = new Log(new ArrayList<>()) { public void onStateChangeBegin(State<Object, String> f, StateEvent<String> e, State<Object, String> t) { multi.remove(this); } };
    multi.add(once); multi.add(new Log(got)); multi.add(new Log(got));
    try { multi.onStateChangeBegin(st("A"), ev("e"), st("B")); } catch (RuntimeException e) { check(false, "announcement threw " + e); }
    check(got.size() == 2, "notified " + got.size() + " of two other listeners");
""", "a listener that removes itself when notified", "removing a listener during an announcement fails the announcement")

bug("c19-add-check-then-act", "C19", [
 (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "    if (this.consumers.containsKey(stateMachineListener)) {\n      return false;\n    }\n    this.consumers.put(stateMachineListener, stateMachineListener);\n    return true;")],
"""
    for (int r = 0; r < 20000; r++) {
      MultiConsumerStateMachineListener<Object, String> multi = new MultiConsumerStateMachineListener<>();
      CyclicBarrier bar = new CyclicBarrier(2);
      Log l = new Log(new ArrayList<>());
      Future<Boolean> f = EX.submit(() -> { bar.await(); return multi.add(l); });
      bar.await();
      boolean mine = multi.add(l);
      check(mine ^ f.get(), "both additions of one listener reported it as new");
    }
""", "two threads adding the same listener at once", "both additions report the listener as new")

bug("c20-plain-read", "C20", [
 (G, "    return isEnded.get();", "    return isEnded.getPlain();")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    CountDownLatch done = new CountDownLatch(1);
    daemon(() -> { long n = 0; while (!m.isEnded()) n++; done.countDown(); }).start();
    Thread.sleep(1500);
    m.stop();
    check(done.await(10, TimeUnit.SECONDS), "a thread waiting for the end never sees it");
""", "a thread that polls isEnded() in a loop", "the end of the machine is never seen by a polling thread")

bug("c21-stopping-error", "C21", [
 (LU, "    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);", "    stateMachine.when(stopping).receives(evtError).itTransitionsTo(started);")],
"""
    State<Object, Void> u = LifecycleStateMachineUtil.newUnitialisedState(), s1 = LifecycleStateMachineUtil.newStartingState(), s2 = LifecycleStateMachineUtil.newStartedState(), s3 = LifecycleStateMachineUtil.newStoppingState(), s4 = LifecycleStateMachineUtil.newStoppedState();
    GenericStateMachine<Object, Void> m = new GenericStateMachine.Builder<Object, Void>().setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(new Config<Object, Void>().withExecutor(EX))).build();
    LifecycleStateMachineUtil.configureAppStateMachine(m, u, s1, s2, s3, s4);
    m.startInState(s3);
    m.fire(LifecycleStateMachineUtil.evtError); drain();
    check(m.getCurrentState().equals(s4), "an error while stopping leads to " + m.getCurrentState());
""", "an error while the app is stopping", "an app that fails to stop counts as started")

APP = '''
  static class Sub implements Subsystem<Ctx> {
    final String n; final List<String> log; volatile RuntimeException onStart, onStop;
    Sub(String n, List<String> log) { this.n = n; this.log = log; }
    public void start(Ctx c) { log.add("start " + n); if (onStart != null) throw onStart; }
    public void stop(Ctx c) { log.add("stop " + n); if (onStop != null) throw onStop; }
  }
  static class Ctx extends AbstractAppContext<Ctx> { Ctx(String n) { super(n); } }
  static class App extends AbstractAppService<Ctx> { App(Ctx c, boolean exit) { super(c, exit); } }
  static boolean reaches(App a, String s) throws Exception {
    for (int i = 0; i < 500; i++) { if (a.getLifecycleState() != null && a.getLifecycleState().getName().equals(s)) return true; Thread.sleep(10); }
    return false;
  }
'''
bug("c22-stop-all-then-fail", "C22", [
 (AS, "          while (listIterator.hasPrevious()) {\n            listIterator.previous().stop(appContext);\n          }", "          RuntimeException failure = null;\n          while (listIterator.hasPrevious()) {\n            try {\n              listIterator.previous().stop(appContext);\n            } catch (RuntimeException e) {\n              failure = e;\n            }\n          }\n          if (failure != null) {\n            throw failure;\n          }")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    Sub s1 = new Sub("1", log), s2 = new Sub("2", log);
    s2.onStop = new IllegalArgumentException("x");
    App app = new App(new Ctx("app").withSubsystems(List.of(s1, s2)), false);
    daemon(app::start).start();
    check(reaches(app, "STARTED"), "not started");
    app.stop();
    check(reaches(app, "STOPPED"), "not stopped");
    check(log.equals(List.of("start 1", "start 2", "stop 2")), "touched " + log);
""", "a subsystem that fails to stop", "subsystems are stopped after one has failed", extra=APP)

bug("c22-start-once", "C22", [
 (AS, "  private final boolean isExitOnStop;\n", "  private final boolean isExitOnStop;\n  private final java.util.Set<Subsystem<C>> up = java.util.concurrent.ConcurrentHashMap.newKeySet();\n"),
 (AS, "            subsystem.start(appContext);", "            if (up.add(subsystem)) {\n              subsystem.start(appContext);\n            }"),
 (AS, "            listIterator.previous().stop(appContext);", "            Subsystem<C> subsystem = listIterator.previous();\n            subsystem.stop(appContext);\n            up.remove(subsystem);")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    Sub s1 = new Sub("1", log);
    App app = new App(new Ctx("app").withSubsystems(List.of(s1)), false);
    daemon(app::start).start();
    check(reaches(app, "STARTED"), "not started");
    app.error(new Exception("x"));
    check(reaches(app, "STOPPED"), "not stopped");
    app.start();
    check(reaches(app, "STARTED"), "not started again");
    check(log.equals(List.of("start 1", "start 1")), "touched " + log);
""", "a restart after an error", "subsystems are not started again after the app stopped with an error", extra=APP)

bug("c22-complete-early", "C22", [
 (AS, "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            subsystem.start(appContext);\n          }\n          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);", "          int pending = appContext.getSubsystems().size();\n          if (pending == 0) {\n            appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n          }\n          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            if (--pending == 0) {\n              appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n            }\n            subsystem.start(appContext);\n          }")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    Sub s1 = new Sub("1", log), s2 = new Sub("2", log);
    s2.onStart = new IllegalArgumentException("x");
    App app = new App(new Ctx("app").withSubsystems(List.of(s1, s2)), false);
    List<String> states = Collections.synchronizedList(new ArrayList<>());
    app.setStateMachineListener(new StateMachineListener<Ctx, Void>() {
      public void onStateChangeBegin(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) { states.add(t.getName()); }
      public void onStateChangeEnd(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) { }
    });
    daemon(app::start).start();
    check(reaches(app, "STOPPED"), "not stopped");
    check(!states.contains("STARTED"), "the app counted as started: " + states);
""", "the last subsystem fails to start", "completion is signalled before the last subsystem has started", extra=APP)

bug("c23-stop-while-starting", "C23", [
 (AS, "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n", "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STARTING.equals(currentAppState)\n")],
GATE + """
    Subsystem<Ctx> slow = new Subsystem<>() {
      public void start(Ctx c) { in.countDown(); try { go.await(); } catch (InterruptedException e) { } }
      public void stop(Ctx c) { }
    };
    App app = new App(new Ctx("app").withSubsystems(List.of(slow)), false);
    daemon(app::start).start();
    in.await();
    boolean thrown = false;
    try { app.stop(); } catch (IllegalStateException e) { thrown = true; }
    go.countDown();
    check(thrown, "stop() was accepted while the app was starting");
""", "stop() while a subsystem is still starting", "a stop that cannot be honoured is accepted silently", extra=APP)

bug("c23-error-only-when-started", "C23", [
 (AS, "    appStateMachine.fire(evtError);", "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(stateName(getLifecycleState()))) {\n      appStateMachine.fire(evtError);\n    }")],
GATE + """
    Subsystem<Ctx> slow = new Subsystem<>() {
      public void start(Ctx c) { in.countDown(); try { go.await(); } catch (InterruptedException e) { } }
      public void stop(Ctx c) { }
    };
    App app = new App(new Ctx("app").withSubsystems(List.of(slow)), false);
    daemon(app::start).start();
    in.await();
    app.error(new Exception("while starting"));
    go.countDown();
    check(reaches(app, "STOPPED"), "the error was ignored, the app is " + app.getLifecycleState());
""", "an error reported while the app is starting", "an error reported outside STARTED is ignored", extra=APP)

bug("c23-release-on-error", "C23", [
 (AS, "  public void error(Exception e) {\n    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;", "  public void error(Exception e) {\n    appLatch.countDown();\n    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;")],
"""
    App app = new App(new Ctx("app").withSubsystems(List.of()), false);
    CountDownLatch returned = new CountDownLatch(1);
    daemon(() -> { app.start(); returned.countDown(); }).start();
    check(reaches(app, "STARTED"), "not started");
    app.error(new Exception("x"));
    check(reaches(app, "STOPPED"), "not stopped");
    check(!returned.await(1, TimeUnit.SECONDS), "start() returned although the app can be started again");
""", "an error in restartable mode", "start() returns although the app has not been stopped for good", extra=APP)

bug("c24-own-counter", "C24", [
 (TH, "    private static final AtomicInteger threadNumber = new AtomicInteger();", "    private final AtomicInteger threadNumber = new AtomicInteger();")],
"""
    String x = Threads.newNamedDaemonThreadFactory("w").newThread(() -> { }).getName(), y = Threads.newNamedDaemonThreadFactory("w").newThread(() -> { }).getName();
    check(!x.equals(y), "two threads are called " + x);
""", "two factories with the same name", "threads of different factories get the same name")

bug("c24-counter-race", "C24", [
 (TH, "      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));", "      int number = threadNumber.get();\n      threadNumber.set(number + 1);\n      thread.setName(String.format(DASH_FORMAT, this.threadName, number));")],
"""
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("w");
    Set<String> names = ConcurrentHashMap.newKeySet();
    AtomicBoolean dup = new AtomicBoolean();
    List<Thread> ts = new ArrayList<>();
    for (int t = 0; t < 6; t++) { Thread x = daemon(() -> { for (int i = 0; i < 50000; i++) if (!names.add(f.newThread(() -> { }).getName())) dup.set(true); }); x.start(); ts.add(x); }
    for (Thread x : ts) x.join();
    check(!dup.get(), "two threads have the same name");
""", "threads made by several threads at once", "two threads get the same number")

bug("c24-handler-default", "C24", [
 (TH, "      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);", "      if (Thread.getDefaultUncaughtExceptionHandler() == null) {\n        thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n      }")],
"""
    Thread.setDefaultUncaughtExceptionHandler((t, e) -> { });
    Thread.UncaughtExceptionHandler h = (t, e) -> { };
    check(Threads.newNamedDaemonThreadFactory("w", h).newThread(() -> { }).getUncaughtExceptionHandler() == h, "the given handler was not set");
""", "a process with a default uncaught-exception handler", "the given uncaught-exception handler is ignored")

bug("c25-dropping-unbounded", "C25", [
 (F, "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));", "    return new DropDuplicateEventStrategy<>(\n        new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),\n            config.getUnexpectedFlowListener(), -1, config.getEventQueue()));")],
GATE + """
    Flow flow = new Flow();
    GenericStateMachine<Object, String> m = dropping(conf().withMaxQueueSize(1).withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c"));
    go.countDown();
    check(flow.log.size() == 1, "reported " + flow.log);
""", "a maximum queue size with the drop-duplicate strategy", "the drop-duplicate strategy ignores the configured maximum")

bug("c25-plain-queue-ignored", "C25", [
 (F, "      if (eventQueue == null) {", "      if (eventQueue == null || eventQueue instanceof java.util.AbstractList) {")],
GATE + """
    LinkedList<EventMachinePair<Object, String>> q = new LinkedList<>();
    GenericStateMachine<Object, String> m = machine(conf().withEventQueue(q).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b"));
    int n = q.size();
    go.countDown();
    check(n == 1, "the given queue holds " + n + " events");
""", "a queue that is also a list", "the queue given by the user is silently replaced")

bug("c26-ended-but-busy", "C26", [
 (G, "    } else if (isStarted() && isEnded()) {", "    } else if (isEnded() && getEventQueueSize() == 0) {")],
GATE + """
    Flow flow = new Flow();
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b"));
    m.stop();
    m.fire(ev("late"));
    go.countDown(); drain();
    check(flow.log.equals(List.of("after late")), "reported " + flow.log);
""", "an event fired after the end while earlier events are still queued", "an event fired after the end vanishes without report")

bug("c27-ended-zero", "C27", [
 (G, "    return eventProcessingStrategy.getEventQueueSize();", "    return isEnded() ? 0 : eventProcessingStrategy.getEventQueueSize();")],
GATE + """
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("c"));
    m.stop();
    int n = m.getEventQueueSize();
    go.countDown();
    check(n > 0, "size " + n + " while events are waiting");
""", "a stopped machine with waiting events", "the queue size is zero although events are waiting")

bug("c28-blocking-put", "C28", [
 (DS, "    if (!eventQueue.offer(inboundPair)) {", "    if (eventQueue instanceof java.util.concurrent.BlockingQueue && maxQueueSize <= 0) {\n      try {\n        ((java.util.concurrent.BlockingQueue<EventMachinePair<T, S>>) eventQueue).put(inboundPair);\n      } catch (InterruptedException e) {\n        Thread.currentThread().interrupt();\n        return;\n      }\n    } else if (!eventQueue.offer(inboundPair)) {"),
 (DS, "    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();", "    EventMachinePair<T, S> inboundPair = eventMachinePairPool.take();")],
GATE + """
    GenericStateMachine<Object, String> m = machine(conf().withEventQueue(new ArrayBlockingQueue<>(1)).withUnexpectedFlowListener(new Flow()).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b"));
    Thread t = daemon(() -> m.fire(ev("c"))); t.start();
    t.join(5000);
    check(!t.isAlive(), "fire() blocks while the queue is full");
""", "a bounded blocking queue given by the user", "firing blocks until an event has been processed")

bug("c28-backoff", "C28", [
 (DS, "    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {\n", "    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {\n      /* give the consumer a chance before the next event */\n      java.util.concurrent.locks.LockSupport.parkNanos(200_000_000L);\n")],
GATE + """
    GenericStateMachine<Object, String> m = machine(conf().withMaxQueueSize(1).withUnexpectedFlowListener(new Flow()).withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b"));
    long t = System.nanoTime();
    for (int i = 0; i < 20; i++) m.fire(ev("c"));
    t = (System.nanoTime() - t) / 1000000;
    go.countDown();
    check(t < 2000, "twenty rejected events blocked the caller for " + t + " ms");
""", "a full queue", "firing at a full queue blocks the caller")

bug("c29-names-null-state", "C29", [
 (DU, "    logger.warn(\"Event {} received before state machine has started\", stateEvent);", "    logger.warn(\"Event {} received before state machine has started in state {}\", stateEvent,\n        stateMachine.getCurrentState().getName());")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    try { m.fire(ev("early")); } catch (RuntimeException e) { check(false, "fire threw " + e); }
""", "an event fired before the start with the default listener", "the default listener throws when the machine has no current state")

bug("c29-stop-on-failure", "C29", [
 (DU, "        stateEvent, stateMachine.getCurrentState(), thread.getName(), e);", "        stateEvent, stateMachine.getCurrentState(), thread.getName(), e);\n    if (e instanceof NullPointerException) {\n      stateMachine.stop();\n    }")],
"""
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { throw new NullPointerException(); }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); drain();
    check(!m.isEnded(), "the default listener stopped the machine");
""", "a NullPointerException while processing an event", "the default unexpected-flow listener stops the machine")

bug("c29-end-names-source", "C29", [
 (LL, "        logger.info(LOG_TRANSITIONED, newState.getName());", "        logger.info(LOG_TRANSITIONED, oldState == newState ? event.getName() : newState.getName());")],
"""
    System.out.println("see Demo of logging");
    List<String> calls = new ArrayList<>();
    class N implements State<Object, String> {
      final String n; N(String n) { this.n = n; }
      public String getName() { calls.add(n); return n; }
      public void onEntry(StateEvent<String> e, StateMachine<Object, String> m) { } public void onExit(StateEvent<String> e, StateMachine<Object, String> m) { }
      public void appendEntryActions(StateAction<Object, String>... x) { } public void appendExitActions(StateAction<Object, String>... x) { }
    }
    N s = new N("S");
    new LoggingStateMachineListener<Object, String>().onStateChangeEnd(s, ev("e"), s);
    check(calls.contains("S"), "the end record does not name the state reached");
""", "the end of a transition from a state to itself", "the end record names the event instead of the state reached")
