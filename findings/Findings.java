package com.webotech.statemachine.strategy;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.service.*;
import java.lang.ref.WeakReference;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

/** Demonstrations of the genuine defects found (see DESIGN.md). Usage: Findings NAME; exit 1 = defect shows. */
public class Findings {
  static <T, S> NamedState<T, S> st(String n) { return new NamedState<>(n); }
  static <S> NamedStateEvent<S> ev(String n) { return new NamedStateEvent<>(n); }
  static void sleep(long ms) { try { Thread.sleep(ms); } catch (InterruptedException e) { throw new RuntimeException(e); } }
  static void bad(String m) { System.out.println("DEFECT: " + m); System.out.flush(); Runtime.getRuntime().halt(1); }
  static void ok(String m) { System.out.println("OK: " + m); System.out.flush(); Runtime.getRuntime().halt(0); }

  static final class Ev<S> implements StateEvent<S> {
    final String n; S p; Ev(String n) { this.n = n; }
    public String getName() { return n; } public S getPayload() { return p; } public void setPayload(S p) { this.p = p; }
    @Override public boolean equals(Object o) { return o instanceof Ev && ((Ev<?>) o).n.equals(n); }
    @Override public int hashCode() { return n.hashCode(); }
  }
  static final class Ctx extends AbstractAppContext<Ctx> { Ctx() { super("app"); } }
  static final class App extends AbstractAppService<Ctx> { App(boolean exit) { super(new Ctx(), exit); } }
  static void await(App a, String s) { long t = System.currentTimeMillis();
    while (a.getLifecycleState() == null || !a.getLifecycleState().getName().equals(s)) {
      if (System.currentTimeMillis() - t > 5000) throw new IllegalStateException("timeout waiting for " + s); Thread.yield(); } }

  public static void main(String[] a) throws Exception {
    switch (a[0]) {
      case "unended": {
        State<Void, Void> s = st("s"); StateEvent<Void> e = ev("e");
        s.appendEntryActions((v, m) -> { m.fire(e); sleep(200); });
        StateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build().initialSate(s).receives(e).itEnds();
        m.start(); sleep(200);
        if (!m.isEnded()) bad("machine reached " + m.getCurrentState() + " but isEnded() is false"); ok("ended"); break; }
      case "stoprace": {
        for (int i = 0; i < 20000; i++) {
          GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build();
          State<Void, Void> s = st("s"), t = st("t"); StateEvent<Void> e = ev("e");
          m.initialSate(s).receives(e).itTransitionsTo(t).when(t).receives(e).itTransitionsTo(s); m.start();
          CyclicBarrier b = new CyclicBarrier(2);
          Thread x = new Thread(() -> { try { b.await(); } catch (Exception q) { } for (int k = 0; k < 50; k++) m.updateCurrentState(k % 2 == 0 ? t : s); });
          x.start(); b.await(); for (int k = 0; k < i % 40; k++) Thread.onSpinWait(); m.stop(); x.join();
          if (m.isEnded() && !m.getCurrentState().getName().equals("_END_")) bad("iteration " + i + ": ended but in " + m.getCurrentState());
        } ok("no overwrite of end seen"); break; }
      case "dupmapping": {
        State<Void, Void> s = st("s"), t = st("t"), u = st("u"); StateEvent<Void> e = ev("e");
        StateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build().initialSate(s).receives(e).itTransitionsTo(t);
        try { m.when(s).receives(e).itTransitionsTo(u); } catch (IllegalStateException x) { ok("rejected: " + x.getMessage()); }
        bad("second outcome for the same state and event silently replaced the first"); break; }
      case "noevent": {
        State<Void, Void> s = st("s"), t = st("t");
        try { new GenericStateMachine.Builder<Void, Void>().build().initialSate(s).itTransitionsTo(t); } catch (IllegalStateException x) { ok("rejected: " + x.getMessage()); }
        bad("outcome accepted although no event was marked"); break; }
      case "sharedqueue": {
        CountDownLatch l = new CountDownLatch(1); AtomicReference<Throwable> err = new AtomicReference<>();
        State<Void, Void> s = st("s"), t = st("t"), u = st("u"); StateEvent<Void> e = ev("e");
        s.appendEntryActions();
        GenericStateMachine<Void, Void> m1 = new GenericStateMachine.Builder<Void, Void>().build(), m2 = new GenericStateMachine.Builder<Void, Void>().build();
        State<Void, Void> blk = st("blk"); blk.appendEntryActions((v, m) -> { try { l.await(); } catch (InterruptedException q) { } });
        m1.initialSate(s).receives(e).itTransitionsTo(blk).when(blk).receives(e).itTransitionsTo(s);
        m2.initialSate(s).receives(e).itTransitionsTo(u).when(u).receives(e).itTransitionsTo(s);
        m1.start(); m2.start(); m1.fire(e); sleep(100); m2.fire(e); sleep(100);
        int q1 = m1.getEventQueueSize(); l.countDown(); sleep(200);
        if (q1 != 0 || !m2.getCurrentState().equals(u)) bad("m1 reports queue " + q1 + " holding m2's event; m2 ended in " + m2.getCurrentState() + " instead of " + u);
        ok("independent"); break; }
      case "builderreuse": {
        State<Void, Void> s = st("s"), t = st("t"), u = st("u"); StateEvent<Void> e = ev("e");
        GenericStateMachine.Builder<Void, Void> b = new GenericStateMachine.Builder<>();
        GenericStateMachine<Void, Void> m1 = b.build(), m2 = b.build();
        m1.initialSate(s).receives(e).itTransitionsTo(t).when(t).receives(e).itEnds();
        m2.initialSate(s).receives(e).itTransitionsTo(u).when(u).receives(e).itEnds();
        m1.start(); m1.fire(e); sleep(200);
        if (!t.equals(m1.getCurrentState())) bad("m1 went to " + m1.getCurrentState() + " instead of " + t); ok("independent"); break; }
      case "configreuse": {
        EventProcessingStrategyFactory.Config<Void, Void> c = new EventProcessingStrategyFactory.Config<>();
        DefaultEventStrategy<Void, Void> x = (DefaultEventStrategy<Void, Void>) EventProcessingStrategyFactory.<Void, Void>createDefaultStrategy(c);
        DefaultEventStrategy<Void, Void> y = (DefaultEventStrategy<Void, Void>) EventProcessingStrategyFactory.<Void, Void>createDefaultStrategy(c);
        if (x.getEventQueue() == y.getEventQueue()) bad("two strategies of one configuration share their default queue"); ok("own queues"); break; }
      case "refusedoffer": {
        CountDownLatch l = new CountDownLatch(1); AtomicInteger rep = new AtomicInteger(), unm = new AtomicInteger();
        UnexpectedFlowListener<Void, Void> ul = new DefaultUnexpectedFlowListener<>() {
          @Override public void onExceptionDuringEventProcessing(StateEvent<Void> v, StateMachine<Void, Void> m, Thread th, Exception x) { rep.incrementAndGet(); } };
        GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().setEventProcessingStrategy(
            EventProcessingStrategyFactory.createDefaultStrategy(new EventProcessingStrategyFactory.Config<Void, Void>().withEventQueue(new ArrayBlockingQueue<>(1))
                .withUnexpectedFlowListener(ul).withUnmappedEventHandler((v, mm) -> { unm.incrementAndGet(); try { l.await(); } catch (InterruptedException q) { } }))).build();
        State<Void, Void> s = st("s"); m.initialSate(s).receives(ev("x")).itEnds(); m.start();
        m.fire(ev("a")); sleep(100); m.fire(ev("b")); m.fire(ev("c")); l.countDown(); sleep(200);
        if (unm.get() + rep.get() != 3) bad("3 events fired, " + unm + " processed, " + rep + " reported: one vanished"); ok("all accounted for"); break; }
      case "customevent": {
        GenericStateMachine<Void, String> m = new GenericStateMachine.Builder<Void, String>().build();
        State<Void, String> s = st("s"), t = st("t"); m.initialSate(s).receives(new Ev<String>("e")).itTransitionsTo(t); m.start();
        Ev<String> e = new Ev<>("e"); e.setPayload("p"); m.fire(e); sleep(200);
        if (!"_END_".equals(m.getCurrentState().getName())) bad("mapped event of a custom type with a payload was treated as unmapped; still in " + m.getCurrentState());
        ok("moved"); break; }
      case "restartexit": {
        App app = new App(false); Thread th = new Thread(() -> app.start()); th.setDaemon(true); th.start();
        await(app, "STARTED"); app.stop(); await(app, "STOPPED"); app.stop(); await(app, "_END_"); th.join(2000);
        if (th.isAlive()) bad("restartable app has ended but start() still blocks"); ok("start returned"); break; }
      case "exitrace": {
        for (int i = 0; i < 3000; i++) {
          App app = new App(true); AtomicReference<Throwable> err = new AtomicReference<>();
          Thread th = new Thread(() -> { try { app.start(); } catch (Throwable x) { err.set(x); } }); th.setDaemon(true); th.start();
          await(app, "STARTED"); app.stop(); th.join(5000);
          if (err.get() != null) bad("iteration " + i + ": start() of a regularly stopped app threw " + err.get());
        } ok("no exception seen"); break; }
      case "fanout": {
        AtomicInteger n = new AtomicInteger();
        class L implements StateMachineListener<Void, Void> { final boolean f; L(boolean f) { this.f = f; }
          public void onStateChangeBegin(State<Void, Void> x, StateEvent<Void> e, State<Void, Void> y) { if (f) throw new IllegalStateException("x"); n.incrementAndGet(); }
          public void onStateChangeEnd(State<Void, Void> x, StateEvent<Void> e, State<Void, Void> y) { if (f) throw new IllegalStateException("x"); n.incrementAndGet(); } }
        MultiConsumerStateMachineListener<Void, Void> mc = new MultiConsumerStateMachineListener<>();
        for (int i = 0; i < 20; i++) { mc.add(new L(false)); mc.add(new L(i == 7)); }
        try { mc.onStateChangeBegin(st("a"), ev("e"), st("b")); } catch (RuntimeException x) { }
        try { mc.onStateChangeEnd(st("a"), ev("e"), st("b")); } catch (RuntimeException x) { }
        if (n.get() != 78) bad("only " + n + " of 78 callbacks to well-behaved listeners happened"); ok("independent"); break; }
      case "initialends": {
        GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build(); State<Void, Void> s = st("s");
        m.initialSate(s).itEnds(); m.start(); sleep(100);
        if (!m.isEnded()) bad("initial state is configured to end but the machine has not ended"); ok("ended"); break; }
      case "poolleak": {
        GenericStateMachine<Void, Object> m = new GenericStateMachine.Builder<Void, Object>().build(); State<Void, Object> s = st("s");
        m.initialSate(s).receives(ev("x")).itEnds(); m.start(); NamedStateEvent<Object> e = ev("e"); Object p = new byte[1 << 20]; e.setPayload(p);
        WeakReference<Object> w = new WeakReference<>(p); m.fire(e); sleep(200); e.setPayload(null); p = null;
        for (int i = 0; i < 20 && w.get() != null; i++) { System.gc(); sleep(20); }
        if (w.get() != null) bad("payload of a processed event is still held by the pool"); ok("released"); break; }
      case "nullpayload": {
        List<String> seen = Collections.synchronizedList(new ArrayList<>()); CountDownLatch l = new CountDownLatch(1);
        GenericStateMachine<Void, String> m = new GenericStateMachine.Builder<Void, String>().build(); State<Void, String> s = st("s"), t = st("t");
        NamedStateEvent<String> e = ev("e"), w = ev("w");
        t.appendEntryActions((v, mm) -> { if (v.getName().equals("w")) try { l.await(); } catch (InterruptedException q) { } else seen.add(String.valueOf(v.getPayload())); });
        m.initialSate(s).receives(w).itTransitionsTo(t).when(t).receives(e).itTransitionsTo(t); m.start();
        m.fire(w); m.fire(e); e.setPayload("p"); m.fire(e); l.countDown(); sleep(200);
        if (!seen.equals(List.of("null", "p"))) bad("fired with payloads [null, p], actions saw " + seen); ok("snapshot"); break; }
      case "boundrace": {
        for (int i = 0; i < 3000; i++) {
          CountDownLatch l = new CountDownLatch(1);
          GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Void, Void>().withMaxQueueSize(1).withUnexpectedFlowListener(new DefaultUnexpectedFlowListener<Void, Void>() {
              @Override public void onExceptionDuringEventProcessing(StateEvent<Void> v, StateMachine<Void, Void> q, Thread th, Exception x) { } })
             .withUnmappedEventHandler((v, mm) -> { try { l.await(); } catch (InterruptedException q) { } }))).build();
          State<Void, Void> s = st("s"); m.initialSate(s).receives(ev("x")).itEnds(); m.start(); m.fire(ev("a"));
          while (m.getEventQueueSize() > 0) Thread.onSpinWait();
          CyclicBarrier b = new CyclicBarrier(3); Thread[] ts = new Thread[3];
          for (int k = 0; k < 3; k++) { ts[k] = new Thread(() -> { try { b.await(); } catch (Exception q) { } m.fire(ev("b")); }); ts[k].start(); }
          for (Thread th : ts) th.join(); int q = m.getEventQueueSize(); l.countDown();
          if (q > 1) bad("iteration " + i + ": queue bounded to 1 holds " + q);
        } ok("bound kept"); break; }
      case "duprace": {
        for (int i = 0; i < 3000; i++) {
          CountDownLatch l = new CountDownLatch(1);
          GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(
            new EventProcessingStrategyFactory.Config<Void, Void>().withUnmappedEventHandler((v, mm) -> { try { l.await(); } catch (InterruptedException q) { } }))).build();
          State<Void, Void> s = st("s"); m.initialSate(s).receives(ev("x")).itEnds(); m.start(); m.fire(ev("a"));
          while (m.getEventQueueSize() > 0) Thread.onSpinWait();
          CyclicBarrier b = new CyclicBarrier(3); Thread[] ts = new Thread[3];
          for (int k = 0; k < 3; k++) { ts[k] = new Thread(() -> { try { b.await(); } catch (Exception q) { } m.fire(ev("b")); }); ts[k].start(); }
          for (Thread th : ts) th.join(); int q = m.getEventQueueSize(); l.countDown();
          if (q > 1) bad("iteration " + i + ": " + q + " equal events wait in a drop-duplicate queue");
        } ok("no duplicates"); break; }
      case "queuesize": {
        CountDownLatch in = new CountDownLatch(1), l = new CountDownLatch(1);
        GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build(); State<Void, Void> s = st("s"), t = st("t"); NamedStateEvent<Void> e = ev("e");
        t.appendEntryActions((v, mm) -> { in.countDown(); try { l.await(); } catch (InterruptedException q) { } });
        m.initialSate(s).receives(e).itTransitionsTo(t); m.start(); m.fire(e); in.await(); int q = m.getEventQueueSize(); l.countDown();
        if (q != 1) bad("event in progress, queue size reported " + q); ok("counted"); break; }
      case "initialentry": {
        List<String> log = Collections.synchronizedList(new ArrayList<>());
        GenericStateMachine<Void, Void> m = new GenericStateMachine.Builder<Void, Void>().build(); State<Void, Void> s = st("s"), t = st("t"); NamedStateEvent<Void> e = ev("e");
        s.appendEntryActions((v, mm) -> { mm.fire(e); sleep(200); log.add("s entered"); }); s.appendExitActions((v, mm) -> log.add("s left"));
        m.initialSate(s).receives(e).itTransitionsTo(t).when(t).receives(e).itTransitionsTo(s); m.start(); sleep(200);
        if (!log.equals(List.of("s entered", "s left"))) bad("order " + log); ok("ordered"); break; }
      default: throw new IllegalArgumentException(a[0]);
    }
  }
}
