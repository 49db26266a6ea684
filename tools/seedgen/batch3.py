from seedlib import *
from batch1 import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC
from batch2 import GATE, APP

bug("c01-key-of-names", "C01", [
 (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);", "    /* names are unique, one look-up instead of two */\n    State<T, S> from = machine.getCurrentState();\n    String key = from.getName() + event.getName();\n    State<T, S> toState = outcomes.get(key);\n    if (toState == null) {\n      toState = states.get(from).get(event);\n      if (toState != null) {\n        outcomes.put(key, toState);\n      }\n    }"),
 (TT, "  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;", "  private final Map<String, State<T, S>> outcomes = new java.util.concurrent.ConcurrentHashMap<>();\n  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;")],
"""
    State<Object, String> x = st("A"), y = st("AB"), z = st("Z");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(x).receives(ev("BC")).itTransitionsTo(y).when(y).receives(ev("C")).itTransitionsTo(z).when(z).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("BC")); m.fire(ev("C")); drain();
    check(m.getCurrentState().equals(z), "the machine is in " + m.getCurrentState());
""", "two states and two events whose concatenated names are the same", "the outcome configured for another state and event is used")

bug("c03-receives-reopens-end", "C03", [
 (G, "    this.markedEvent = stateEvent;\n", "    this.markedEvent = stateEvent;\n    this.states.get(this.markedState).remove(immediateEvent);\n")],
"""
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go")).itTransitionsTo(b).when(b).itEnds().when(b).receives(ev("back")).itTransitionsTo(a1);
    m.start();
    m.fire(ev("go")); drain();
    check(m.isEnded(), "the machine has not ended, it is in " + m.getCurrentState());
""", "a state that ends the machine and is configured for an event afterwards", "a machine does not end when it enters a state configured to end it")

bug("c05-ended-counts-as-new", "C05", [
 (G, "    assertInitStateDefined(true);\n    if (this.states.isEmpty()) {", "    assertInitStateDefined(true);\n    if (currentState != null && !isEnded()) {\n      throw new IllegalStateException(\"The state machine has already been started\");\n    }\n    if (isEnded.compareAndSet(true, false)) {\n      isStarted.set(false);\n    }\n    if (this.states.isEmpty()) {")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.start();
    m.fire(ev("x")); drain();
    boolean thrown = false;
    try { m.start(); } catch (IllegalStateException e) { thrown = true; }
    check(thrown && m.isEnded(), "a machine that has ended was started again");
""", "start() on a machine that has ended", "a machine that has ended can be started again")

bug("c09-handler-failure-lost", "C09", [
 (TT, "      unmappedEventHandler.accept(event, machine);", "      try {\n        unmappedEventHandler.accept(event, machine);\n      } catch (UnsupportedOperationException e) {\n        /* the handler does not take this kind of event */\n      }")],
"""
    Flow flow = new Flow();
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, x) -> { throw new UnsupportedOperationException("no"); }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("other")); drain();
    check(flow.log.size() == 1, "reported " + flow.log);
""", "an unmapped-event handler that throws UnsupportedOperationException", "an exception thrown while processing an event is swallowed")

bug("c15-rejected-when-configures", "C15", [
 (G, "    assertMarkedStateDefined(false);\n    this.states.putIfAbsent(state, new HashMap<>());\n", "    this.states.putIfAbsent(state, new HashMap<>());\n    assertMarkedStateDefined(false);\n")],
"""
    State<Object, String> a1 = st("A"), b = st("B");
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(a1).receives(ev("go"));
    boolean thrown = false;
    try { m.when(b); } catch (IllegalStateException e) { thrown = true; }
    m.itTransitionsTo(b);
    m.start();
    m.fire(ev("go")); drain();
    check(thrown && m.isEnded(), "the rejected when() has configured the state");
""", "a when() that is rejected and a transition to the same state", "a rejected call leaves a configured state behind")

bug("c16-unsupported-action-dropped", "C16", [
 (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));", "    for (java.util.Iterator<StateAction<T, S>> it = entryActions.iterator(); it.hasNext(); ) {\n      StateAction<T, S> action = it.next();\n      try {\n        action.execute(stateEvent, stateMachine);\n      } catch (UnsupportedOperationException e) {\n        it.remove();\n      }\n    }")],
"""
    List<String> log = new ArrayList<>();
    NamedState<Object, String> s = new NamedState<>("S");
    s.appendEntryActions((e, m) -> { log.add("1"); throw new UnsupportedOperationException(); }, (e, m) -> log.add("2"));
    for (int i = 0; i < 2; i++) try { s.onEntry(ev("e"), null); log.add("no failure"); } catch (UnsupportedOperationException e) { }
    check(log.equals(List.of("1", "1")), "ran " + log);
""", "an entry action that throws UnsupportedOperationException", "a failing action is removed and the actions after it run")

bug("c18-handler-failure-hidden", "C18", [
 (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);", "      try {\n        exceptionHandler.onException(stateEvent, stateMachine, e);\n      } catch (IllegalStateException again) {\n        e.addSuppressed(again);\n      }")],
"""
    boolean thrown = false;
    try { new HandleExceptionAction<Object, String>((e, m) -> { throw new RuntimeException("x"); }, (e, m, x) -> { throw new IllegalStateException("y"); }).execute(ev("e"), null); } catch (IllegalStateException e) { thrown = true; }
    check(thrown, "the failure of the handler was swallowed");
""", "an exception handler that throws IllegalStateException itself", "what the handler throws is swallowed")

bug("c19-copied-on-first-use", "C19", [
 (MC, "    return this.consumers.remove(stateMachineListener) != null;", "    for (StateMachineListener<T, S> consumer : consumers.values()) {\n      if (consumer.hashCode() == stateMachineListener.hashCode()) {\n        return consumers.remove(consumer) != null;\n      }\n    }\n    return false;")],
"""
    List<String> log = new ArrayList<>();
    class L extends Log { L(String n, List<String> l) { super(l); } public int hashCode() { return 1; } }
    L a1 = new L("a", log), b = new L("b", log);
    MultiConsumerStateMachineListener<Object, String> multi = new MultiConsumerStateMachineListener<>(a1);
    boolean removed = multi.remove(b);
    multi.onStateChangeBegin(st("A"), ev("e"), st("B"));
    check(!removed && log.size() == 1, "a listener that was never added was removed: " + removed + " " + log);
""", "two listeners with the same hash code", "removing a listener that was never added removes another one")

bug("c20-plain-started", "C20", [
 (G, "    return isStarted.get();\n  }\n\n  @Override\n  public boolean isEnded() {", "    return isStarted.getPlain();\n  }\n\n  @Override\n  public boolean isEnded() {")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    CountDownLatch done = new CountDownLatch(1);
    daemon(() -> { long n = 0; while (!m.isStarted()) n++; done.countDown(); }).start();
    Thread.sleep(1500);
    m.start();
    check(done.await(10, TimeUnit.SECONDS), "a thread waiting for the start never sees it");
""", "a thread that polls isStarted() in a loop", "the start of the machine is never seen by a polling thread")

bug("c21-late-error-ignored", "C21", [
 (LU, "    stateMachine.when(stopped).receives(evtStop).itEnds();", "    stateMachine.when(stopped).receives(evtStop).itEnds();\n    stateMachine.when(stopped).receives(evtComplete).itTransitionsTo(started);")],
"""
    State<Object, Void> u = LifecycleStateMachineUtil.newUnitialisedState(), s1 = LifecycleStateMachineUtil.newStartingState(), s2 = LifecycleStateMachineUtil.newStartedState(), s3 = LifecycleStateMachineUtil.newStoppingState(), s4 = LifecycleStateMachineUtil.newStoppedState();
    GenericStateMachine<Object, Void> m = new GenericStateMachine.Builder<Object, Void>().setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(new Config<Object, Void>().withExecutor(EX))).build();
    LifecycleStateMachineUtil.configureAppStateMachine(m, u, s1, s2, s3, s4);
    m.startInState(s1);
    m.fire(LifecycleStateMachineUtil.evtError); m.fire(LifecycleStateMachineUtil.evtComplete); drain();
    check(m.getCurrentState().equals(s4), "a completion that arrives after the error leads to " + m.getCurrentState());
""", "a completion that arrives after an error", "an app that failed to start counts as started")

bug("c23-stop-while-busy", "C23", [
 (AS, "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n", "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n        || appStateMachine.getEventQueueSize() > 0\n")],
GATE + """
    Subsystem<Ctx> slow = new Subsystem<>() {
      public void start(Ctx c) { in.countDown(); try { go.await(); } catch (InterruptedException e) { } }
      public void stop(Ctx c) { }
    };
    App app = new App(new Ctx("app").withSubsystems(List.of(slow)), false);
    daemon(app::start).start();
    in.await();
    app.error(new Exception("queued"));
    boolean thrown = false;
    try { app.stop(); } catch (IllegalStateException e) { thrown = true; }
    go.countDown();
    check(thrown, "stop() was accepted while the app was starting");
""", "stop() while the app is starting and another event is waiting", "a stop that cannot be honoured is accepted silently", extra=APP)

bug("c25-dropping-thread-name", "C25", [
 (F, "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));", "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(\n        new Config<T, S>().withUnmappedEventHandler(config.getUnmappedEventHandler())\n            .withUnexpectedFlowListener(config.getUnexpectedFlowListener())\n            .withMaxQueueSize(config.getMaxQueueSize()).withEventQueue(config.getEventQueue())\n            .withExecutor(config.executor)));")],
"""
    SynchronousQueue<String> on = new SynchronousQueue<>();
    GenericStateMachine<Object, String> m = dropping(new Config<Object, String>().withThreadName("mine").withUnmappedEventHandler((e, x) -> { try { on.put(Thread.currentThread().getName()); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("other"));
    String n = on.poll(20, TimeUnit.SECONDS);
    check(n != null && n.startsWith("mine"), "events are processed on thread " + n);
""", "a thread name with the drop-duplicate strategy", "the drop-duplicate strategy ignores the configured thread name")

bug("c27-distinct", "C27", [
 (DS, "    return eventQueue.size();", "    return (int) eventQueue.stream().map(EventMachinePair::getStateEvent).distinct().count();")],
GATE + """
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { in.countDown(); try { go.await(); } catch (InterruptedException y) { } }));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    m.fire(ev("a")); in.await();
    m.fire(ev("b")); m.fire(ev("b"));
    int n = m.getEventQueueSize();
    go.countDown();
    check(n == 2, "the size is " + n);
""", "two equal events waiting", "the queue size counts different events only")
