from seedlib import *
from batch1 import G, TT, DS, DD, F, NS, NE, HE, MC, LL, DU, POOL, AS, LU, TH, AC
from batch2 import GATE, APP

bug("c29-name-as-format", "C29", [
 (LL, "        logger.info(LOG_TRANSITIONED, newState.getName());", "        logger.info(String.format(\"Transitioned to \" + newState.getName()));")],
"""
    new LoggingStateMachineListener<Object, String>().onStateChangeEnd(st("A"), ev("x"), st("50% done"));
""", "a state whose name holds a percent sign", "the logging listener throws on a valid state name")

bug("c25-thread-name-stripped-on-read", "C25", [
 (AC, "    return appThreadNameRef.get();", "    return appThreadNameRef.getAndUpdate(n -> n == null ? null : n.strip());")],
"""
    class Ctx extends AbstractAppContext<Ctx> { Ctx() { super("app"); } }
    Ctx c = new Ctx().withAppThreadName("worker ");
    String one = c.getAppThreadName(), two = c.getAppThreadName();
    check("worker ".equals(one) && "worker ".equals(two), "'" + one + "' then '" + two + "'");
""", "a thread name with outer blanks, read a second time", "the app context returns another thread name than was given")

bug("c05-stop-counts-as-start", "C05", [
 (G, "    updateCurrentState(this.endState);", "    updateCurrentState(this.endState);\n    isStarted.set(true);")],
"""
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.stop();
    check(!m.isStarted(), "a machine that was never started says it was");
    m.start();
    check(m.isStarted(), "not started");
""", "stop() before start()", "a machine that was stopped before its start cannot be started any more")

bug("c24-number-wraps", "C24", [
 (TH, "threadNumber.getAndIncrement()", "threadNumber.getAndUpdate(n -> n == Short.MAX_VALUE ? 0 : n + 1)")],
"""
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("t");
    Set<String> names = new HashSet<>();
    for (int i = 0; i < 40000; i++) check(names.add(f.newThread(() -> { }).getName()), "two threads have the same name, after " + i);
""", "more than 32767 threads made in the life of the process", "two threads get the same name")

bug("c11-stops-at-emptied-carrier", "C11", [
 (DD, "    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {\n      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n      return;\n    }",
  "    for (EventMachinePair<T, S> en : eventQueue) {\n      StateEvent<S> waiting = en.getStateEvent();\n      if (waiting == null) {\n        /* has been processed meanwhile */\n        break;\n      }\n      if (stateEvent.equals(waiting)) {\n        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n        return;\n      }\n    }")],
"""
    Semaphore one = new Semaphore(0), two = new Semaphore(0), inTwo = new Semaphore(0), inZero = new Semaphore(0);
    AtomicBoolean armed = new AtomicBoolean();
    class Q extends ConcurrentLinkedQueue<EventMachinePair<Object, String>> {
      public Iterator<EventMachinePair<Object, String>> iterator() {
        Iterator<EventMachinePair<Object, String>> it = super.iterator();
        if (armed.getAndSet(false)) meanwhile();
        return it;
      }
      public Spliterator<EventMachinePair<Object, String>> spliterator() { return Spliterators.spliteratorUnknownSize(iterator(), Spliterator.ORDERED); }
      public java.util.stream.Stream<EventMachinePair<Object, String>> stream() { return java.util.stream.StreamSupport.stream(spliterator(), false); }
      void meanwhile() { one.release(); inTwo.acquireUninterruptibly(); }
    }
    Q q = new Q();
    State<Object, String> x = st("A"), y = st("B");
    x.appendExitActions((e, m) -> { if (e.getName().equals("zero")) { inZero.release(); one.acquireUninterruptibly(); } });
    y.appendExitActions((e, m) -> { if (e.getName().equals("two")) { inTwo.release(); two.acquireUninterruptibly(); } });
    GenericStateMachine<Object, String> m = dropping(conf().withEventQueue(q));
    m.initialSate(x).receives(ev("zero")).itTransitionsTo(y).when(y).receives(ev("one")).itDoesNotTransition();
    m.when(y).receives(ev("two")).itTransitionsTo(y).when(y).receives(ev("three")).itDoesNotTransition();
    m.start();
    m.fire(ev("zero")); inZero.acquireUninterruptibly();
    m.fire(ev("one")); m.fire(ev("two")); m.fire(ev("three"));
    armed.set(true);
    m.fire(ev("three"));
    int waiting = q.size();
    two.release(8);
    drain();
    check(waiting == 1, waiting + " events wait, of which all are equal");
""", "an event that is processed completely while the queue is being searched for a duplicate", "the search ends at the emptied carrier, and a duplicate of a later event is queued")

bug("c07-newest-first", "C07", [
 (DS, "        EventMachinePair<T, S> consumedPair = eventQueue.poll();", "        EventMachinePair<T, S> consumedPair = eventQueue instanceof java.util.Deque\n            ? ((java.util.Deque<EventMachinePair<T, S>>) eventQueue).pollLast() : eventQueue.poll();")],
"""
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    Semaphore go = new Semaphore(0);
    GenericStateMachine<Object, String> m = machine(conf().withEventQueue(new ConcurrentLinkedDeque<>()).withUnmappedEventHandler((e, x) -> seen.add(e.getName())));
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.start();
    EX.submit(() -> go.acquireUninterruptibly());
    m.fire(ev("1")); m.fire(ev("2")); m.fire(ev("3"));
    go.release(); drain();
    check(seen.equals(List.of("1", "2", "3")), "processed " + seen);
""", "an event queue that is a deque, and several events waiting", "events are processed in the reverse of their arrival")

bug("c10-capacity-of-queue", "C10", [
 (DS, "    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {", "    boolean full = eventQueue instanceof java.util.concurrent.BlockingQueue\n        ? ((java.util.concurrent.BlockingQueue<?>) eventQueue).remainingCapacity() == 0\n        : queueSize >= maxQueueSize;\n    if (maxQueueSize > 0 && full) {")],
"""
    Flow flow = new Flow();
    Semaphore go = new Semaphore(0);
    GenericStateMachine<Object, String> m = machine(conf().withEventQueue(new LinkedBlockingQueue<>()).withMaxQueueSize(2).withUnexpectedFlowListener(flow));
    m.initialSate(st("A")).receives(ev("x")).itDoesNotTransition();
    m.start();
    EX.submit(() -> go.acquireUninterruptibly());
    for (int i = 0; i < 3; i++) m.fire(ev("x"));
    List<String> reports = new ArrayList<>(flow.log);
    go.release(); drain();
    check(reports.size() == 1 && reports.get(0).contains("IllegalStateException"), "reported " + reports);
""", "a blocking queue with room to spare, and a smaller maximum queue size", "an event is queued beyond the maximum")

bug("c12-empty-event-not-copied", "C12", [
 (DS, "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", "      /* nothing to keep safe when there is no payload */\n      inboundPair.setEventMachinePair(\n          stateEvent.getPayload() == null ? stateEvent : new NamedStateEvent<>(stateEvent), stateMachine);")],
"""
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    Semaphore go = new Semaphore(0);
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> seen.add(String.valueOf(e.getPayload()))));
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.start();
    EX.submit(() -> go.acquireUninterruptibly());
    StateEvent<String> e = ev("y");
    m.fire(e);
    e.setPayload("later");
    m.fire(e);
    go.release(); drain();
    check(seen.equals(List.of("null", "later")), "payloads " + seen);
""", "an event fired without a payload that is given one before it is processed", "an action sees a payload set after the event was fired")

bug("c18-suppressed-too", "C18", [
 (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);", "      for (Throwable also : e.getSuppressed()) {\n        if (also instanceof Exception) {\n          exceptionHandler.onException(stateEvent, stateMachine, (Exception) also);\n        }\n      }\n      exceptionHandler.onException(stateEvent, stateMachine, e);")],
"""
    List<Exception> seen = new ArrayList<>();
    Exception main = new RuntimeException("main");
    main.addSuppressed(new RuntimeException("also"));
    new HandleExceptionAction<Object, String>((e, m) -> sneaky(main), (e, m, x) -> seen.add(x)).execute(ev("x"), null);
    check(seen.equals(List.of(main)), "handled " + seen);
""", "an exception with suppressed exceptions", "the handler is called more than once")

bug("c19-remove-by-hash", "C19", [
 (MC, "    return this.consumers.remove(stateMachineListener) != null;", "    int hash = stateMachineListener.hashCode();\n    return this.consumers.keySet().removeIf(l -> l.hashCode() == hash);")],
"""
    class Same extends Log { Same(List<String> l) { super(l); } public int hashCode() { return 7; } }
    List<String> l1 = new ArrayList<>(), l2 = new ArrayList<>();
    Same s1 = new Same(l1), s2 = new Same(l2);
    MultiConsumerStateMachineListener<Object, String> m = new MultiConsumerStateMachineListener<>(s1, s2);
    m.remove(s1);
    m.onStateChangeBegin(st("A"), ev("x"), st("B"));
    check(l1.isEmpty() && l2.size() == 1, "notified " + l1 + l2);
""", "two listeners with the same hash code", "removing one listener removes another")

bug("c26-stopped-before-start", "C26", [
 (G, "    if (!isStarted()) {\n      unexpectedFlowListener.onEventBefore", "    if (!isStarted() && currentState == null) {\n      unexpectedFlowListener.onEventBefore"),
 (G, "    } else if (isStarted() && isEnded()) {", "    } else if (isEnded()) {")],
"""
    Flow flow = new Flow();
    GenericStateMachine<Object, String> m = machine(conf().withUnexpectedFlowListener(flow));
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.stop();
    m.fire(ev("x")); drain();
    check(flow.log.equals(List.of("before x")), "reported " + flow.log);
""", "a machine that is stopped before it has been started", "an event fired before the start is reported as fired after the end")

bug("c06-resume-in-initial-state", "C06", [
 (G, "    if (!beginIn(state)) {\n      throw new IllegalStateException(\"The state machine has already been started\");\n    }\n  }", "    if (!beginIn(state)) {\n      throw new IllegalStateException(\"The state machine has already been started\");\n    }\n    if (state == initState) {\n      state.onEntry(immediateEvent, this);\n    }\n  }"),
 (G, "    if (!states.containsKey(state)) {\n      throw new IllegalStateException(\"State [\" + state + \"] has not been configured\");", "    if (state == null || !states.containsKey(state)) {\n      throw new IllegalStateException(\"State [\" + state + \"] has not been configured\");")],
"""
    AtomicInteger n = new AtomicInteger();
    State<Object, String> x = st("A");
    x.appendEntryActions((e, m) -> n.incrementAndGet());
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(x).receives(ev("x")).itEnds();
    m.startInState(x);
    check(n.get() == 0 && m.getCurrentState() == x, "entry actions ran when resuming");
""", "resuming in the initial state", "startInState runs the entry actions of the initial state")

bug("c09-cancel-stops-drain", "C09", [
 (DS, "        } catch (Exception e) {\n", "        } catch (java.util.concurrent.CancellationException e) {\n          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n              Thread.currentThread(), e);\n          eventQueue.clear();\n        } catch (Exception e) {\n")],
"""
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    Semaphore go = new Semaphore(0);
    GenericStateMachine<Object, String> m = machine(conf().withUnmappedEventHandler((e, x) -> { seen.add(e.getName()); if (e.getName().equals("1")) throw new CancellationException(); }));
    m.initialSate(st("A")).receives(ev("x")).itEnds();
    m.start();
    EX.submit(() -> go.acquireUninterruptibly());
    m.fire(ev("1")); m.fire(ev("2"));
    go.release(); drain();
    check(seen.equals(List.of("1", "2")), "processed " + seen);
""", "an action that throws CancellationException while other events wait", "the events that wait are lost")

bug("c02-self-transition-skips-exit", "C02", [
 (TT, "    machine.getCurrentState().onExit(event, machine);\n", "    if (fromState != toState || event.getPayload() != null) {\n      machine.getCurrentState().onExit(event, machine);\n    }\n")],
"""
    List<String> log = Collections.synchronizedList(new ArrayList<>());
    State<Object, String> x = st("A");
    x.appendEntryActions((e, m) -> log.add("entry"));
    x.appendExitActions((e, m) -> log.add("exit"));
    GenericStateMachine<Object, String> m = machine(conf());
    m.initialSate(x).receives(ev("x")).itTransitionsTo(x);
    m.start();
    log.clear();
    m.fire(ev("x")); drain();
    check(log.equals(List.of("exit", "entry")), "ran " + log);
""", "a transition of a state to itself", "the exit actions are not run")
