package sa;

import java.util.*;
import java.util.function.*;

/** Rules about firing and processing events: C07-C13, C27, C28. */
final class ChkStrategy {
  final Prog p; final Rep r; final Engine base;
  ChkStrategy(Prog p, Rep r, Engine b) { this.p = p; this.r = r; base = b; }

  static final String ON_EXC = "UnexpectedFlowListener.onExceptionDuringEventProcessing";
  static final String ISE = "java/lang/IllegalStateException";
  static final String NSE = "NamedStateEvent";

  // ---- firing ------------------------------------------------------------------------------

  /** The paths of processEvent on a running machine, and what was learnt about the event carrier. */
  final class Fire {
    World w; List<Engine.Out> outs; V size;
    String evField, machField;       // carrier fields
    V runnable; St atRun;
    V pool;                          // queue carriers are recycled through
    List<Eff> q(Engine.Out o, Predicate<Eff> f) { return World.effs(o.st.trace, f); }
    List<Eff> offers(Engine.Out o) { return q(o, g -> g.k == Eff.K.MUT && g.op.startsWith("queue.offer") && g.recv.equals(w.queue)); }
    List<Eff> accepted(Engine.Out o) {
      List<Eff> l = offers(o);
      l.removeIf(g -> V.FALSE.equals(g.res) || g.thrown != null);
      return l;
    }
    List<Eff> refused(Engine.Out o) {
      List<Eff> l = offers(o);
      l.removeIf(g -> !V.FALSE.equals(g.res));
      return l;
    }
    List<Eff> execs(Engine.Out o) { return q(o, g -> g.k == Eff.K.CALL && g.op.replace("REPEATED ", "").startsWith("executor.")); }
    List<Eff> reports(Engine.Out o) { return q(o, g -> g.op.replace("REPEATED ", "").startsWith("UnexpectedFlowListener.")); }
  }
  Fire fire() { return fire(false); }
  Fire fire(boolean conc) { return fire(new World(p, r, base).defaultStrategy(), conc); }
  Fire fire(World on, boolean conc) {
    Fire x = new Fire();
    World w = x.w = on.machine().configured().havoc().running();
    w.event = w.sym("event", "StateEvent").nn();
    w.e.boundary.add("TransitionTask.execute");
    w.warm(t -> w.call(t, w.strategy, "processEvent", w.earlier(), w.gsm));
    if (w.warmed) w.running();
    w.e.conc = conc;
    x.size = V.app("size", "I", w.queue);
    x.outs = w.call(w.st.copy(), w.strategy, "processEvent", w.event, w.gsm);
    for (Engine.Out o : x.outs) {
      List<Eff> a = x.accepted(o);
      if (a.isEmpty()) continue;
      Eff of = a.get(0);
      V c = of.arg(0);
      for (St.Cell cell : of.snap.heap.values()) {
        if (!cell.base.equals(c) || cell.val == null || cell.f.startsWith("$")) continue;
        if (cell.val.equals(w.gsm)) x.machField = cell.f;
        else if (cell.val.equals(w.event) || cell.val.k == V.K.OBJ && NSE.equals(cell.val.shortType())
            || Boolean.TRUE.equals(p.subtype(cell.val.type, type("StateEvent")))) x.evField = cell.f;
      }
      for (Eff e : x.execs(o)) {
        if (e.args.size() > 0 && e.thrown == null && (x.runnable == null)) { x.runnable = e.arg(0); x.atRun = o.st; }
      }
      if (c.k == V.K.RES) for (Eff g : o.st.trace) if (g.k == Eff.K.MUT && c.equals(g.res)) x.pool = g.recv;
    }
    r.use(w.e);
    return x;
  }
  String type(String simple) { return p.cls(simple).name; }

  World.Case named(World w, World.Case c, boolean is) {
    V a = V.app("instanceof", "Z", w.event, V.cls(type(NSE)));
    return is ? c.is(a) : c.not(a);
  }
  World.Case over(Fire x) { return x.w.kase("queue at its positive limit").cmp(">", x.w.max, V.FALSE).cmp(">=", x.size, x.w.max); }
  World.Case under(Fire x) { return x.w.kase("queue below its positive limit").cmp(">", x.w.max, V.FALSE).cmp("<", x.size, x.w.max); }
  World.Case unlimited(Fire x) { return x.w.kase("no positive limit").cmp("<=", x.w.max, V.FALSE); }

  static final String ROOT = "DefaultEventStrategy.processEvent";

  // ---- draining ----------------------------------------------------------------------------

  /** One pass of the drain over a taken event, or its end. */
  static final class Run {
    List<Eff> effs; St end; boolean cont; V exc; Engine.Out out;
    List<Eff> polled = new ArrayList<>();
    boolean drained;                    // nothing was left when the last event was to be taken
    final Set<V> later = new HashSet<>(); // taken in this pass, processed in the next
  }
  final class Drain {
    Fire x; World w; List<Engine.Out> outs; List<Run> runs = new ArrayList<>();
    Set<String> ended = new HashSet<>();
    V ev(V elem) { return V.app("queuedEvent", type("StateEvent"), elem).nn(); }
    List<Eff> execs(Run u) {
      List<Eff> l = new ArrayList<>();
      for (Eff g : World.effs(u.effs, f -> f.op.equals("TransitionTask.execute"))) l.add(g);
      return l;
    }
    List<Eff> reports(Run u) { return World.effs(u.effs, f -> f.op.startsWith("UnexpectedFlowListener.")); }
    List<Eff> gives(Run u, V elem) {
      return World.effs(u.effs, f -> f.k == Eff.K.MUT && (f.op.startsWith("queue.offer") || f.op.startsWith("list.add")) && f.args.size() == 1 && f.arg(0).equals(elem));
    }
    int idx(Run u, Eff g) { return u.effs.indexOf(g); }
    /** What the machine's ended flag is seen to be at this read, together with the reads since the previous event. */
    Boolean ended(Run u, Eff g) {
      Map<String, V[]> m = new HashMap<>();
      St f = u.end.copy();
      List<Eff> ex = execs(u);
      for (Eff h : u.effs) {
        if (ex.contains(h)) { m.clear(); f = u.end.copy(); }
        if (h.k == Eff.K.READ && ended.contains(ChkMachine.cellKey(h))) {
          V[] old = m.get(ChkMachine.cellKey(h));
          if (old == null) World.cell(m, h, h.res);
          else if (!World.asOne(f, u.end, h.res, old[2])) return null;
        }
        if (h == g) break;
      }
      return w.seen("isEnded", f, m);
    }
  }
  Drain drain() {
    Fire x = fire();
    if (x.runnable == null) throw new World.Undecided("no task handed to the executor was recognised");
    if (x.evField == null || x.machField == null) throw new World.Undecided("the carrier of a queued event was not recognised");
    Drain d = new Drain();
    d.x = x;
    World w = d.w = x.w;
    Set<String> reported = w.observed();
    w.e.conc = true;
    for (String f : w.mutableFields()) if (f.startsWith("GenericStateMachine.") || reported.contains(f)) w.e.shared.add(f);
    for (Engine.Out o : w.call(w.st.copy(), w.gsm, "isEnded")) for (Eff g : o.st.trace) if (g.k == Eff.K.READ) d.ended.add(ChkMachine.cellKey(g));
    w.e.elemHook = (s, coll, elem) -> {
      if (!coll.equals(w.queue)) return;
      s.put(elem, x.evField, d.ev(elem));
      s.put(elem, x.machField, w.gsm);
    };
    St s = x.atRun.copy();
    s.trace.clear();
    s.facts.clear();
    s.atoms.clear();
    s.ivl.clear();
    w.e.thread = V.sym("processing", "java/lang/Thread").nn();
    d.outs = w.e.callFn(x.runnable, "java/lang/Runnable", "run", "()V", V.NONE, s);
    Set<String> seen = new HashSet<>();
    for (Engine.Out o : d.outs) {
      int from = 0;
      for (int i = 0; i < o.st.trace.size(); i++) {
        Eff g = o.st.trace.get(i);
        if (g.k != Eff.K.LOOP || World.effs(List.of(g), f -> f.k == Eff.K.MUT && f.recv != null && f.recv.equals(w.queue)).isEmpty()
            && World.effs(o.st.trace.subList(i, o.st.trace.size()), f -> f.k == Eff.K.MUT && f.recv != null && f.recv.equals(w.queue)).isEmpty()) continue;
        from = i + 1;
        if (!seen.add("" + g.loop.id + g.site)) continue;
        for (Loop.Iter it : g.loop.iters) {
          Run u = new Run();
          u.effs = it.effs;
          u.end = it.end;
          u.cont = true;
          carry(u, g.loop, w);
          for (String c : g.loop.carried.keySet()) u.later.add(it.upd.get(c));
          d.runs.add(u);
        }
      }
      Run u = new Run();
      u.effs = new ArrayList<>(o.st.trace.subList(from, o.st.trace.size()));
      u.end = o.st;
      u.exc = o.exc;
      u.out = o;
      if (from > 0) carry(u, o.st.trace.get(from - 1).loop, w);
      d.runs.add(u);
    }
    for (Run u : d.runs) {
      for (Eff g : u.effs) if (g.k == Eff.K.MUT && g.recv != null && g.recv.equals(w.queue) && g.op.startsWith("queue.poll") && g.res != null && !g.res.isNull() && !u.later.contains(g.res)) u.polled.add(g);
    }
    r.paths += d.runs.size();
    r.roots.add("drain task of " + ROOT);
    r.use(w.e);
    return d;
  }
  /** An event taken before this pass began. */
  private void carry(Run u, Loop l, World w) {
    for (Map.Entry<String, V> c : l.carried.entrySet()) {
      if (!c.getValue().equals(w.queue)) continue;
      V init = l.init.get(c.getKey()), lv = V.lvar(l.id, c.getKey(), init.type);
      Boolean none = u.end.decideNull(lv);
      if (Boolean.TRUE.equals(none)) { u.drained = true; continue; }
      Eff e = new Eff(Eff.K.MUT, "queue.poll", w.queue, List.of(), l.site, List.of(), 0);
      e.res = lv;
      u.effs = new ArrayList<>(u.effs);
      u.effs.add(0, e);
    }
  }
  void bad(Drain d, String rule, String msg, Run u) {
    if (World.imprecise(u.end)) r.undecided(rule, msg + " on a path with approximated steps " + World.notes(u.end));
    else r.bad(rule, null, msg, u.end, u.exc);
  }
  /** An exception that is, or may be, an Exception (and not only an Error). */
  boolean mayBeException(V exc) {
    if (exc.k == V.K.EXC) {
      @SuppressWarnings("unchecked") List<String> not = (List<String>) exc.x;
      for (String n : not) if (Boolean.TRUE.equals(p.subtype("java/lang/Exception", n))) return false;
      return p.compatible(exc.type, "java/lang/Exception");
    }
    return !Boolean.FALSE.equals(p.subtype(exc.type, "java/lang/Exception"));
  }
  boolean isException(V exc) { return Boolean.TRUE.equals(p.subtype(exc.type, "java/lang/Exception")); }

  List<List<Engine.Out>> firingAndDraining() {
    List<List<Engine.Out>> l = new ArrayList<>();
    Fire f = fire();
    l.add(f.outs);
    try { l.add(drain().outs); } catch (World.Undecided u) { r.undecided("drain", u.getMessage()); }
    return l;
  }

  // ---- C07 ---------------------------------------------------------------------------------

  void c07() {
    Fire x = fire();
    World w = x.w;
    World.Expect accept = (o, f) -> {
      List<Eff> all = x.offers(o), acc = x.accepted(o);
      for (Eff g : all) {
        if (g.op.startsWith("REPEATED")) return "the event may be queued several times at " + g.site;
        if (!g.op.equals("queue.offer")) return "the event is not added at the tail of the queue at " + g.site;
      }
      if (acc.size() > 1) return "the event is queued " + acc.size() + " times, again at " + acc.get(1).site;
      if (acc.isEmpty()) {
        if (x.reports(o).isEmpty()) {
          if (o.exc != null && !all.isEmpty()) return "a refused event is thrown as " + V.shortName(o.exc.type) + " instead of being reported";
          return "the event vanishes: it is neither queued nor reported";
        }
        return null;
      }
      int at = o.st.trace.indexOf(acc.get(0));
      boolean drained = false;
      for (Eff e : x.execs(o)) {
        if (e.op.startsWith("REPEATED")) continue;
        if (o.st.trace.indexOf(e) > at) drained = true;
      }
      if (!drained) return "no drain is handed to the executor after the event has been queued at " + acc.get(0).site;
      return null;
    };
    // firing one event takes no other out of the queue
    World.Expect others = (o, f) -> {
      for (Eff g : x.q(o, g -> g.k == Eff.K.MUT && w.queue.equals(g.recv))) {
        String op = g.op.replace("REPEATED ", "");
        if (op.startsWith("queue.poll")) {
          if (g.res != null && (g.res.isNull() || own(x, o, g.res))) continue;
          return "firing an event takes another out of the queue at " + g.site + ": it is never processed";
        }
        if (op.startsWith("queue.remove") && g.args.size() == 1 && own(x, o, g.arg(0))) continue;
        if (op.startsWith("queue.remove") || op.startsWith("queue.clear") || op.startsWith("queue.retain")) return "firing an event takes others out of the queue by " + op + " at " + g.site;
      }
      return null;
    };
    w.cases(ROOT, x.outs, w.kase("any event fired").then(others));
    World.Expect refusedX = (o, f) -> {
      if (x.refused(o).isEmpty() || !x.accepted(o).isEmpty()) return null;
      List<Eff> l = x.reports(o);
      return World.exactly(o, f, l, new World.X(ON_EXC, w.ufl, w.event, w.gsm, null, null));
    };
    w.cases(ROOT, x.outs, under(x).then(accept), unlimited(x).then(accept), w.kase("event refused by the queue").then(refusedX));

    Drain d = drain();
    String rule = "drain takes every event from the head and processes it once";
    for (Run u : d.runs) {
      List<Eff> ex = d.execs(u);
      for (Eff g : u.effs) {
        if (g.k == Eff.K.MUT && d.w.queue.equals(g.recv)) {
          if (g.op.equals("queue.pollLast")) bad(d, rule, "an event is taken from the tail of the queue at " + g.site, u);
          else if (!g.op.equals("queue.poll") && !g.op.equals("queue.peek")) bad(d, rule, "the queue is changed by " + g.op + " at " + g.site, u);
        }
      }
      if (u.polled.size() > 1) {
        // each taken event is accounted for below
      }
      for (Eff pl : u.polled) {
        V elem = pl.res;
        int n = 0;
        for (Eff e : ex) {
          if (e.op.startsWith("REPEATED")) { n += 2; continue; }
          if (World.eq(u.end, e.arg(0), d.ev(elem)) && World.eq(u.end, e.arg(1), d.w.gsm)) n++;
        }
        boolean end = false, notEnd = false;
        for (Eff g : u.effs) if (g.k == Eff.K.READ && d.ended.contains(ChkMachine.cellKey(g))) {
          Boolean b = d.ended(u, g);
          if (Boolean.TRUE.equals(b)) end = true;
          if (Boolean.FALSE.equals(b)) notEnd = true;
        }
        if (n > 1) bad(d, rule, "an event taken at " + pl.site + " is processed more than once", u);
        else if (n == 0 && !end) bad(d, rule, "an event taken at " + pl.site + " is dropped although the machine has not ended", u);
        else r.ok(rule);
      }
      for (Eff e : ex) {
        boolean mine = false;
        for (Eff pl : u.polled) if (World.eq(u.end, e.arg(0), d.ev(pl.res))) mine = true;
        if (!mine) bad(d, rule, "the event processed at " + e.site + " is not one taken from the queue: " + e.arg(0), u);
      }
      if (!u.cont && u.exc == null) {
        V empty = d.w.e.lib.isEmpty(u.end, d.w.queue);
        if (u.drained || Boolean.TRUE.equals(u.end.decide(empty))) r.ok("drain ends with an empty queue");
        else bad(d, "drain ends with an empty queue", "the drain ends although events may still be queued", u);
      }
    }
    // the default queue and executor
    defaultQueue();
    defaultExecutor();
  }
  /** A carrier this firing put in the queue itself. */
  private boolean own(Fire x, Engine.Out o, V c) {
    for (Eff g : x.offers(o)) if (g.args.size() > 0 && World.eq(o.st, g.arg(0), c)) return true;
    return false;
  }
  static final Set<String> FIFO = Set.of("ConcurrentLinkedQueue", "ConcurrentLinkedDeque", "LinkedBlockingQueue", "LinkedBlockingDeque", "LinkedTransferQueue");
  private void defaultQueue() {
    String rule = "the default queue is an unbounded thread-safe FIFO queue";
    for (boolean full : new boolean[]{false, true}) {
      World w = new World(p, r, base);
      V c = w.config(full, "withEventQueue");
      for (Engine.Out o : w.call(w.st.copy(), c, "getEventQueue")) {
        V q = o.val;
        r.paths++;
        if (o.exc != null) r.bad(rule, null, "making the default queue throws " + V.shortName(o.exc.type), o.st, o.exc);
        else if (q.k != V.K.OBJ) r.undecided(rule, "value " + q);
        else if (!FIFO.contains(q.shortType())) r.bad(rule, null, "the default event queue is a " + q.shortType() + " created at " + q.x, o.st, null);
        else if (!w.e.lib.unbounded(q, o.st)) r.bad(rule, null, "the default event queue created at " + q.x + " is bounded", o.st, null);
        else r.ok(rule);
      }
      r.use(w.e);
    }
  }

  // ---- C04 (second half) -------------------------------------------------------------------

  void endedDrain() {
    Drain d = drain();
    String rule = "an event queued when the machine ends causes no transition";
    for (Run u : d.runs) {
      for (Eff e : d.execs(u)) {
        boolean read = false;
        int at = d.idx(u, e);
        for (int i = 0; i < at; i++) {
          Eff g = u.effs.get(i);
          if (g.k == Eff.K.READ && d.ended.contains(ChkMachine.cellKey(g)) && Boolean.FALSE.equals(d.ended(u, g))) read = true;
        }
        if (read) r.ok(rule);
        else bad(d, rule, "the event is processed at " + e.site + " without checking, since the previous event, that the machine has not ended", u);
      }
    }
  }

  // ---- C08 ---------------------------------------------------------------------------------

  static final Set<String> HANDOFF = Set.of("executor.execute", "executor.submit");

  void c08() {
    // everything fire() does on the calling thread, for both built-in strategies
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) {
      World w = whole(kind);
      List<Engine.Out> outs = w.call(w.st.copy(), w.gsm, "fire", w.event);
      String rule = "GenericStateMachine.fire with " + kind;
      w.cases(rule, outs, w.kase("running").then((o, f) -> {
        for (Eff g : World.all(o.st.trace)) {
          if (g.k != Eff.K.CALL) continue;
          if (ChkMachine.trans(g) || g.op.startsWith("Runnable.")) return "the firing thread itself calls " + g.op + " at " + g.site;
          if (g.op.startsWith("executor.") && !HANDOFF.contains(g.op)) return "the firing thread calls " + g.op + " at " + g.site;
          if (g.op.equals("lib:Thread.run") || g.op.equals("Thread.run")) return "the firing thread runs the work itself at " + g.site;
          if (g.op.equals("Thread.start") || g.op.startsWith("async."))
            return "the event is processed on a thread of its own, at " + g.site + ", so transitions may overlap";
        }
        return null;
      }));
    }
    // nor does the firing thread move the machine on, whatever state it is seen in
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) {
      World w = whole(kind);
      w.e.nonNullValues.remove(w.map);
      w.cases("GenericStateMachine.fire with " + kind + " leaves the machine as it is", w.call(w.st.copy(), w.gsm, "fire", w.event), w.kase("running").then((o, f) -> {
        if (Boolean.TRUE.equals(w.obsBool(o.st, f, w.gsm, "isEnded"))) return "the firing thread itself ends the machine";
        V c = w.obs(o.st, w.gsm, "getCurrentState");
        return c != null && !World.eq(f, c, w.cur) ? "the firing thread itself changes the current state to " + c : null;
      }));
    }
    // processing an event does not process another within it
    ChkMachine.Exec one = new ChkMachine(p, r, base).exec();
    one.w.cases("TransitionTask.execute", one.outs, one.w.kase("any event").then((o, f) -> {
      for (String op : List.of(ChkMachine.ENTRY, ChkMachine.EXIT)) {
        List<Eff> l = World.effs(o.st.trace, g -> g.op.equals(op));
        if (l.size() > 1) return "a second transition is made within the first: " + op + " again at " + l.get(1).site;
      }
      return null;
    }));
    // within the drain a transition finishes before the next event is taken
    Drain d = drain();
    String rule = "one event is finished before the next is looked at";
    for (Run u : d.runs) {
      for (Eff g : World.all(u.effs)) {
        if (g.k == Eff.K.CALL && (g.op.startsWith("executor.") || g.op.equals("Thread.start") || g.op.startsWith("async.")))
          bad(d, rule, "processing is handed to another thread at " + g.site, u);
      }
      // what is taken is processed before another is taken
      for (int i = 0; i < u.polled.size() - 1; i++) {
        int a = d.idx(u, u.polled.get(i)), b = d.idx(u, u.polled.get(i + 1));
        for (Eff e : d.execs(u))
          if (World.eq(u.end, e.arg(0), d.ev(u.polled.get(i).res)) && d.idx(u, e) > b) bad(d, rule, "a second event is taken at " + u.polled.get(i + 1).site + " before the first is processed", u);
      }
      r.ok(rule);
    }
    // the default executor runs one task at a time
    String rl = "the default executor has one thread and never runs work in the caller";
    for (boolean full : new boolean[]{false, true}) {
      World w = new World(p, r, base);
      V c = w.config(full, "withExecutor");
      for (Engine.Out o : w.call(w.st.copy(), c, "getExecutor")) {
        V ex = o.val;
        r.paths++;
        if (o.exc != null) { r.bad(rl, null, "making the default executor throws " + V.shortName(o.exc.type), o.st, o.exc); continue; }
        V how = ex == null ? null : o.st.get(ex, "$ctor");
        if (how == null) r.undecided(rl, "value " + ex);
        else if (shared(how)) r.bad(rl, null, "the default executor made by " + how + " at " + ex.x + " is shared with everything else in the process", o.st, null);
        else if (policy(how) != null && "CallerRunsPolicy".equals(last(policy(how)))) r.bad(rl, null, "the default executor made at " + ex.x + " runs work it refuses in the caller", o.st, null);
        else if (single(how)) r.ok(rl);
        else if (how.op.startsWith("Executors.") || "ThreadPoolExecutor".equals(ex.shortType()))
          r.bad(rl, null, "the default executor is made by " + how + " at " + ex.x, o.st, null);
        else r.undecided(rl, "made by " + how);
      }
      r.use(w.e);
    }
  }
  /** What a thread pool does with work it has no room for, and null when it is made so that there is always room. */
  static V policy(V how) {
    if (!how.op.equals("ctor")) return null;
    for (V v : how.a) if (v.k == V.K.OBJ && v.type != null && v.type.startsWith("java/util/concurrent/ThreadPoolExecutor$")) return v;
    return null;
  }
  static String last(V v) { return v.type.substring(v.type.lastIndexOf('$') + 1); }
  /** The default executor has room for every drain it is handed. */
  private void defaultExecutor() {
    String rl = "the default executor accepts every drain";
    for (boolean full : new boolean[]{false, true}) {
      World w = new World(p, r, base);
      V c = w.config(full, "withExecutor");
      for (Engine.Out o : w.call(w.st.copy(), c, "getExecutor")) {
        V ex = o.val;
        r.paths++;
        V how = o.exc != null || ex == null ? null : o.st.get(ex, "$ctor");
        if (how == null) { r.undecided(rl, "value " + ex); continue; }
        V q = null;
        if (how.op.equals("ctor")) for (V v : how.a) if (v.k == V.K.OBJ && v.type != null && Boolean.TRUE.equals(p.subtype(v.type, "java/util/Queue"))) q = v;
        if (q == null || w.e.lib.unbounded(q, o.st)) r.ok(rl);
        else if (policy(how) != null && "CallerRunsPolicy".equals(last(policy(how)))) r.ok(rl);
        else r.bad(rl, null, "the default executor made at " + ex.x + " has a bounded work queue: a drain may be refused after its event has been queued", o.st, null);
      }
      r.use(w.e);
    }
  }
  /** The pool of the whole process. */
  static boolean shared(V how) { return how.op.equals("Executors.commonPool"); }
  static boolean single(V how) {
    if (how.op.equals("Executors.newSingleThreadExecutor") || how.op.equals("Executors.newSingleThreadScheduledExecutor")) return true;
    if (how.op.equals("Executors.newFixedThreadPool")) return how.a.length > 0 && V.TRUE.equals(how.a[0]);
    return how.op.equals("ctor") && how.a.length >= 2 && V.TRUE.equals(how.a[0]) && V.TRUE.equals(how.a[1]);
  }
  /** A running machine on a built-in strategy, nothing cut off. */
  /** A machine on a built-in strategy in an arbitrary state. */
  World machine(String kind) {
    World w = new World(p, r, base).defaultStrategy();
    if (kind.startsWith("Drop")) {
      V inner = w.strategy;
      w.strategy = w.make("DropDuplicateEventStrategy", inner);
    }
    return w.machine().configured().havoc();
  }
  World whole(String kind) {
    World w = machine(kind).running();
    w.warm(t -> w.call(t, w.strategy, "processEvent", w.earlier(), w.gsm));
    if (w.warmed) w.running();
    w.event = w.sym("event", "StateEvent").nn();
    return w;
  }

  // ---- C09 ---------------------------------------------------------------------------------

  void c09() {
    Drain d = drain();
    V thread = d.w.e.thread;
    String rule = "a failure is reported once and contained";
    for (Run u : d.runs) {
      List<Eff> ex = d.execs(u), rep = d.reports(u);
      Eff failed = null;
      for (Eff e : ex) if (e.thrown != null) failed = e;
      for (Eff g : rep) if (g.op.startsWith("REPEATED")) { bad(d, rule, "a failure may be reported several times at " + g.site, u); }
      if (failed == null) {
        if (!rep.isEmpty()) bad(d, rule, "an event that did not fail is reported at " + rep.get(0).site, u);
        else if (u.exc != null && mayBeException(u.exc)) bad(d, rule, "the drain throws " + V.shortName(u.exc.type) + " although no event failed", u);
        else r.ok(rule);
        continue;
      }
      // the exception as split by the handlers
      V elem = u.polled.isEmpty() ? null : u.polled.get(u.polled.size() - 1).res;
      boolean reportThrew = false;
      for (Eff g : rep) if (g.thrown != null) reportThrew = true;
      if (rep.isEmpty()) {
        // allowed for errors that are not exceptions, which escape
        if (u.exc != null && !mayBeException(u.exc)) r.ok(rule);
        else if (u.exc != null) bad(d, rule, "an exception thrown while processing at " + failed.site + " escapes into the executor and is not reported", u);
        else bad(d, rule, "an exception thrown while processing at " + failed.site + " is not reported", u);
        continue;
      }
      if (rep.size() > 1) { bad(d, rule, "one failure is reported " + rep.size() + " times, again at " + rep.get(1).site, u); continue; }
      Eff g = rep.get(0);
      World.X want = new World.X(ON_EXC, d.w.ufl, d.ev(elem), d.w.gsm, thread, null);
      if (!want.match(u.end, g)) { bad(d, rule, "expected " + want + " but found " + g.op + g.args + " at " + g.site, u); continue; }
      V e = g.arg(3);
      if (!(e.equals(failed.thrown) || e.k == V.K.EXC && e.op.equals(failed.thrown.op))) {
        bad(d, rule, "the reported exception is " + e + " and not the one thrown, at " + g.site, u);
        continue;
      }
      if (reportThrew) { r.ok(rule); continue; }
      if (!u.cont) {
        if (u.exc != null) bad(d, rule, "the drain throws " + V.shortName(u.exc.type) + " after reporting a failure at " + g.site, u);
        else if (!u.drained && !Boolean.TRUE.equals(u.end.decide(d.w.e.lib.isEmpty(u.end, d.w.queue)))) bad(d, rule, "the drain stops after a failure reported at " + g.site + ", later events wait", u);
        else r.ok(rule);
      } else r.ok(rule);
    }
    r.assumptions.add("the unexpected-flow listener itself does not throw");
    actions();
    // what fails inside the transition reaches the drain
    ChkMachine.Exec x = new ChkMachine(p, r, base).exec();
    String through = "an exception thrown while processing an event reaches the drain as it is";
    r.roots.add("TransitionTask.execute");
    for (Engine.Out o : x.outs) {
      r.paths++;
      for (Eff g : World.effs(o.st.trace, ChkMachine::trans)) {
        if (g.thrown == null) continue;
        if (!mayBeException(g.thrown)) continue;
        if (o.exc == null) r.bad(through, null, "the exception of " + g.op + " at " + g.site + " is swallowed", o.st, null);
        else if (!o.exc.equals(g.thrown) && !(o.exc.k == V.K.EXC && Objects.equals(o.exc.op, g.thrown.op))) r.bad(through, null, "the exception of " + g.op + " at " + g.site + " is replaced by " + o.exc, o.st, o.exc);
        else r.ok(through);
      }
    }
  }

  /** What an action of the library's own states throws leaves the state as it is. */
  private void actions() {
    String rule = "an exception thrown by an action of a state leaves the state as it is", act = "StateAction.execute";
    World w = new World(p, r, base);
    V s = w.make("NamedState", V.sym("name", "java/lang/String").nn());
    V a1 = V.sym("action1", type("StateAction")).nn(), a2 = V.sym("action2", type("StateAction")).nn();
    for (String ph : List.of("Entry", "Exit")) {
      w.callOne(s, "append" + ph + "Actions", ChkMisc.arr(w, type("StateAction"), a1, a2));
      r.roots.add("NamedState.on" + ph);
    }
    w.st.trace.clear();
    for (String ph : List.of("Entry", "Exit"))
      for (Engine.Out o : w.call(w.st.copy(), s, "on" + ph, w.sym("event", "StateEvent").nn(), w.sym("machine", "StateMachine").nn())) {
        r.paths++;
        if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
        for (Eff g : World.effs(o.st.trace, g -> g.op.endsWith(act))) {
          if (g.thrown == null || !mayBeException(g.thrown)) continue;
          if (o.exc == null) r.bad(rule, null, "the exception of an action run by on" + ph + " at " + g.site + " is swallowed", o.st, null);
          else if (!o.exc.equals(g.thrown) && !(o.exc.k == V.K.EXC && Objects.equals(o.exc.op, g.thrown.op))) r.bad(rule, null, "the exception of an action run by on" + ph + " at " + g.site + " is replaced by " + o.exc, o.st, o.exc);
          else r.ok(rule);
        }
      }
    r.use(w.e);
  }

  // ---- C10 ---------------------------------------------------------------------------------

  void c10() {
    Fire x = fire();
    World w = x.w;
    V thread = V.app("currentThread", "java/lang/Thread");
    World.Expect reject = (o, f) -> {
      List<Eff> of = x.offers(o);
      if (!of.isEmpty()) return "an event above the limit is queued at " + of.get(0).site;
      if (!x.execs(o).isEmpty()) return "a rejected event still submits a drain at " + x.execs(o).get(0).site;
      List<Eff> rep = x.reports(o);
      String e = World.exactly(o, f, rep, new World.X(ON_EXC, w.ufl, w.event, w.gsm, thread, null));
      if (e != null) return e;
      V ex = rep.get(0).arg(3);
      return ISE.equals(ex.type) ? null : "the rejection is reported as " + V.shortName(ex.type) + " at " + rep.get(0).site;
    };
    World.Expect accept = (o, f) -> {
      if (!x.offers(o).isEmpty()) {
        if (x.refused(o).isEmpty() && !x.reports(o).isEmpty()) return "an accepted event is also reported at " + x.reports(o).get(0).site;
        return null;
      }
      return "the event is not queued" + (x.reports(o).isEmpty() ? "" : " but reported at " + x.reports(o).get(0).site);
    };
    w.cases(ROOT, x.outs, over(x).then(reject), under(x).then(accept), unlimited(x).then(accept));
    // the same when the limit comes through the configuration
    World cw = new World(p, r, base);
    cw.executor = V.sym("executor", "java/util/concurrent/ExecutorService").nn();
    cw.ufl = cw.sym("ufl", "UnexpectedFlowListener").nn();
    cw.handler = V.sym("handler", "java/util/function/BiConsumer").nn();
    cw.max = V.sym("max", "I");
    cw.queue = World.objQueue();
    Engine.Out made = cw.normal(cw.callStatic(cw.st, "EventProcessingStrategyFactory", "createDefaultStrategy", cw.config(true)), "createDefaultStrategy");
    cw.st = made.st;
    cw.strategy = made.val;
    Fire c = fire(cw, false);
    World.Expect rejectC = (o, f) -> c.offers(o).isEmpty() ? null : "an event above the configured limit is queued at " + c.offers(o).get(0).site;
    World.Expect acceptC = (o, f) -> c.offers(o).isEmpty() ? "an event within the configured limit is not queued" : null;
    cw.cases(ROOT + " with a configured maximum", c.outs, over(c).then(rejectC), under(c).then(acceptC), unlimited(c).then(acceptC));
    // with several firing threads
    Fire y = fire(true);
    String rule = "the limit holds for any number of firing threads";
    for (Engine.Out o : y.outs) {
      List<Eff> acc = y.accepted(o);
      if (acc.isEmpty()) continue;
      St s = o.st.copy();
      if (!s.assumeCmp(">", w.max, V.FALSE, true)) continue;
      Eff of = acc.get(0);
      boolean inRegion = false;
      for (Eff g : o.st.trace) {
        if (g == of) break;
        if (g.k == Eff.K.READ && g.op.equals("queue.size") && g.region != 0 && g.region == of.region) inRegion = true;
        if (g.k == Eff.K.CALL && g.op.contains("tryAcquire")) inRegion = true;
        if (g.k == Eff.K.CAS && V.TRUE.equals(g.res)) inRegion = true;
      }
      if (inRegion) r.ok(rule);
      else r.bad(rule, "bound-check-not-atomic", "the size check and the insertion at " + of.site + " are not one atomic step", o.st, o.exc);
    }
    r.use(y.w.e);
    // dropping duplicates adds no limit of its own
    Dedup d = new Dedup();
    String rd = "DropDuplicateEventStrategy.processEvent [no limit of its own]", dropped = "an event is dropped without an equal one being queued";
    r.roots.add("DropDuplicateEventStrategy.processEvent");
    for (Engine.Out o : d.outs) {
      r.paths++;
      if (World.imprecise(o.st) || !dropped.equals(c11path(d.w, o, d.del))) { r.ok(rd); continue; }
      boolean full = false;
      for (Map.Entry<String, V> at : o.st.atoms.entrySet()) full |= o.st.facts.containsKey(at.getKey()) && at.getValue().mentions(V.app("size", "I", d.w.queue));
      for (String k : o.st.ivl.keySet()) full |= k.contains("size(" + d.w.queue.key);
      if (full) r.bad(rd, null, "an event is dropped without a report because of the size of the queue", o.st, o.exc);
      else r.ok(rd);
    }
    r.use(d.w.e);
  }

  // ---- C11 ---------------------------------------------------------------------------------

  /** An event handed to a drop-duplicates strategy, down to what it hands on. */
  private final class Dedup {
    final World w = new World(p, r, base).defaultStrategy();
    final World.X del;
    final List<Engine.Out> outs;
    Dedup() { this(false); }
    /** With carriers that may be emptied by the time they are looked at. */
    Dedup(boolean emptied) {
      V inner = w.strategy;
      w.strategy = w.make("DropDuplicateEventStrategy", inner);
      w.machine().configured().havoc().running();
      w.event = w.sym("event", "StateEvent").nn();
      w.e.boundary.add("TransitionTask.execute");
      w.warm(t -> w.call(t, w.strategy, "processEvent", w.earlier(), w.gsm));
      if (w.warmed) w.running();
      Fire f0 = fire();
      if (f0.evField == null) throw new World.Undecided("the carrier of a queued event was not recognised");
      if (emptied) w.e.nullable.add("queuedEvent");
      w.e.elemHook = (s, coll, elem) -> {
        if (!coll.equals(w.queue)) return;
        V q = V.app("queuedEvent", type("StateEvent"), elem);
        s.put(elem, f0.evField, emptied ? q : q.nn());
        if (!emptied) s.put(elem, f0.machField, w.gsm);
      };
      w.e.boundary.add("EventProcessingStrategy.processEvent");
      outs = w.call(w.st.copy(), w.strategy, "processEvent", w.event, w.gsm);
      del = new World.X("EventProcessingStrategy.processEvent", inner, w.event, w.gsm);
    }
  }
  void c11() {
    Dedup d0 = new Dedup();
    World w = d0.w;
    List<Engine.Out> outs = d0.outs;
    World.X del = d0.del;
    String root = "DropDuplicateEventStrategy.processEvent";
    r.roots.add(root);
    r.paths += outs.size();
    String rule = root + " [drops exactly the duplicates of queued events]";
    for (Engine.Out o : outs) {
      String err = c11path(w, o, del);
      if (err == null) r.ok(rule);
      else if (World.imprecise(o.st)) r.undecided(rule, err + " with " + World.notes(o.st));
      else r.bad(rule, null, err, o.st, o.exc);
      // search and insertion in one critical section
      List<Eff> dl = World.effs(o.st.trace, f -> f.op.equals(del.op));
      if (dl.isEmpty()) continue;
      boolean atomic = false;
      for (Eff g : o.st.trace) if (g.k == Eff.K.ITER && g.region != 0 && g.region == dl.get(0).region) atomic = true;
      String ra = root + " [no two equal events ever wait]";
      if (atomic) r.ok(ra);
      else r.bad(ra, "duplicate-check-not-atomic", "the search and the delegation at " + dl.get(0).site + " are not one atomic step", o.st, o.exc);
    }
    r.use(w.e);
    // a carrier may be taken and emptied between being reached and being looked at
    Dedup d1 = new Dedup(true);
    for (Engine.Out o : d1.outs) {
      r.paths++;
      boolean reached = false;
      for (Map.Entry<String, V> a : o.st.atoms.entrySet()) reached |= a.getValue().is("isnull") && a.getValue().a[0].is("queuedEvent") && Boolean.TRUE.equals(o.st.facts.get(a.getKey()));
      String err = reached ? c11path(d1.w, o, d1.del) : null, rn = rule + " [while carriers are emptied]";
      if (err == null) r.ok(rn);
      else if (World.imprecise(o.st)) r.undecided(rn, err + " with " + World.notes(o.st));
      else r.bad(rn, null, err, o.st, o.exc);
    }
    r.use(d1.w.e);
    // an event leaves the queue before it is processed
    Drain d = drain();
    String rl = "an event being processed is no longer in the queue";
    for (Run u : d.runs) for (Eff e : d.execs(u)) {
      boolean out = false;
      for (Eff pl : u.polled) if (World.eq(u.end, e.arg(0), d.ev(pl.res)) && d.idx(u, pl) < d.idx(u, e)) out = true;
      if (out) r.ok(rl);
      else bad(d, rl, "the event processed at " + e.site + " is still in the queue, so an equal event fired meanwhile is dropped", u);
    }
    made();
  }
  /** What the factory returns for a drop-duplicates strategy, whatever is configured. */
  private void made() {
    World w = new World(p, r, base);
    w.e.nullValues = true;
    String f = "createDropDuplicateStrategy", rule = "a drop-duplicates strategy drops duplicates whatever is configured";
    V cfg = w.config(true);
    for (Engine.Out o : w.callStatic(w.st.copy(), "EventProcessingStrategyFactory", f, cfg)) {
      r.paths++;
      if (o.exc != null) continue;
      String t = o.val == null ? null : o.val.type;
      if (World.imprecise(o.st)) r.undecided(rule, World.notes(o.st));
      else if (t != null && Boolean.TRUE.equals(p.subtype(t, type("DropDuplicateEventStrategy")))) r.ok(rule);
      else if (t != null && t.equals(type("DefaultEventStrategy"))) r.bad(rule, null, f + " returns a " + V.shortName(t), o.st, null);
      else r.undecided(rule, "the factory returns " + o.val);
    }
    r.use(w.e);
  }
  private String c11path(World w, Engine.Out o, World.X del) {
    List<Eff> dl = World.effs(o.st.trace, f -> f.k == Eff.K.CALL && (f.op.endsWith(".processEvent") || f.op.startsWith("executor.")
        || f.op.startsWith("UnexpectedFlowListener.") || ChkMachine.trans(f)) || f.k == Eff.K.MUT && w.queue.equals(f.recv));
    for (Eff g : dl) if (g.k == Eff.K.MUT) return "the search changes the queue by " + g.op + " at " + g.site;
    // what the path knows about the queue
    boolean found = false;
    for (Map.Entry<String, V> a : o.st.atoms.entrySet()) {
      V v = a.getValue();
      if (v.is("equals") && Boolean.TRUE.equals(o.st.facts.get(a.getKey()))) {
        V q = v.a[0].equals(w.event) ? v.a[1] : v.a[1].equals(w.event) ? v.a[0] : null;
        if (q != null && q.is("queuedEvent")) found = true;
      }
    }
    // or what a variable carried out of the search says
    for (Eff l : o.st.trace) {
      if (l.k != Eff.K.LOOP || found) continue;
      List<Loop.Iter> some = Flags.some(o.st, l.loop);
      if (some == null || some.isEmpty()) continue;
      boolean all = true;
      for (Loop.Iter it : some) {
        boolean eq = false;
        for (Eff g : it.effs) if (g.k == Eff.K.ITER && g.is("iter.next") && w.queue.equals(g.recv)
            && Boolean.TRUE.equals(it.end.decide(St.equalsTo(w.event, V.app("queuedEvent", type("StateEvent"), g.res))))) eq = true;
        all &= eq;
      }
      if (all) found = true;
    }
    if (found) {
      if (!dl.isEmpty()) return "an event equal to a queued one is passed on at " + dl.get(0).site;
      return o.exc == null ? null : "throws " + V.shortName(o.exc.type);
    }
    // nothing equal is queued: the whole queue was searched
    boolean searched = false;
    for (Eff g : o.st.trace) if (g.k == Eff.K.ITER && g.is("iter.done") && w.queue.equals(g.recv)) searched = true;
    if (dl.isEmpty()) {
      if (o.exc != null) return "throws " + V.shortName(o.exc.type) + " instead of queueing";
      return "an event is dropped without an equal one being queued";
    }
    String e = World.exactly(o, o.st, dl, del);
    if (e != null) return e;
    if (!searched) {
      V emp = w.e.lib.isEmpty(o.st, w.queue);
      if (Boolean.TRUE.equals(o.st.decide(emp))) return null;
      return "the event is passed on at " + dl.get(0).site + " without searching the queue";
    }
    for (Eff l : o.st.trace) {
      if (l.k != Eff.K.LOOP) continue;
      for (Loop.Iter it : l.loop.iters) for (Eff g : it.effs) {
        if (g.k != Eff.K.ITER || !g.is("iter.next") || !w.queue.equals(g.recv)) continue;
        V qe = V.app("queuedEvent", type("StateEvent"), g.res);
        if (!Boolean.FALSE.equals(it.end.decide(St.equalsTo(w.event, qe)))) {
          // a variable may carry the result out of the loop
          if (Flags.never(w.e.lib, o.st, l.loop, it)) continue;
          boolean flagged = false;
          for (V up : it.upd.values()) if (up != null && up.mentions(St.equalsTo(w.event, qe))) flagged = true;
          if (flagged) throw new World.Undecided("the search result is carried in a variable of the loop at " + l.site);
          return "the search at " + l.site + " continues past an equal event";
        }
      }
    }
    return null;
  }

  // ---- C12 ---------------------------------------------------------------------------------

  void c12() {
    Fire x = fire();
    World w = x.w;
    V name = V.app("getName", "java/lang/String", w.event), pay = V.app("getPayload", null, w.event);
    // the same two as seen by code that has established the event's type
    V typed = Engine.retype(w.event, w.e.prog.cls(NSE).name), name2 = w.obs(w.st, typed, "getName"), pay2 = w.obs(w.st, typed, "getPayload");
    World.Expect copy = (o, f) -> {
      List<Eff> acc = x.accepted(o);
      if (acc.isEmpty()) return null;
      Eff g = acc.get(0);
      V ev = carried(x, g);
      if (ev == null) throw new World.Undecided("the carrier of a queued event was not recognised");
      if (World.eq(f, ev, w.event)) return "the caller's own event object is queued at " + g.site + ": a payload set later replaces the one it was fired with";
      if (ev.k != V.K.OBJ || !NSE.equals(ev.shortType())) {
        if (ev.k == V.K.OBJ || ev.isNull()) return "a named event is queued as " + ev + " at " + g.site;
        if (ev.k == V.K.FLD && ev.a[0].equals(g.arg(0)) && !World.imprecise(o.st)) return "a named event may be queued as what its carrier held before, at " + g.site;
        if (ev.k == V.K.FLD && !World.imprecise(o.st)) for (Eff h : o.st.trace)
          if (h.k == Eff.K.MUT && h.res != null && w.queue.equals(h.recv) && ev.a[0].equals(h.res)) return "a named event is queued as the event of another carrier that is waiting, at " + g.site;
        throw new World.Undecided("queued event " + ev);
      }
      if (!bornHere(ev, w)) return "the copy queued at " + g.site + " is one that an earlier event was queued with";
      V n = w.obs(g.snap, ev, "getName"), pl = w.obs(g.snap, ev, "getPayload");
      if (n == null || !World.norm(f, n, true).equals(World.norm(f, name, true)) && !n.equals(name2)) return "the queued copy is named " + n + " instead of the event's name, at " + g.site;
      if (pl == null || !World.eq(f, pl, pay) && !pl.equals(pay2)) return "the queued copy carries " + pl + " instead of the event's payload, at " + g.site;
      V fin = o.st.get(g.arg(0), x.evField);
      if (fin != null && World.eq(f, fin, w.event)) return "the copy queued at " + g.site + " is replaced by the caller's own event object";
      return null;
    };
    World.Expect self = (o, f) -> {
      List<Eff> acc = x.accepted(o);
      if (acc.isEmpty()) return null;
      V ev = carried(x, acc.get(0));
      if (ev == null) throw new World.Undecided("the carrier of a queued event was not recognised");
      return World.eq(f, ev, w.event) ? null : "an event of another type is queued as " + ev + " at " + acc.get(0).site + ", which is not equal to it";
    };
    w.cases(ROOT, x.outs, named(w, w.kase("named event"), true).then(copy), named(w, w.kase("event of another type"), false).then(self));
    w.cases(ROOT, x.outs, w.kase("the caller's event").then((o, f) -> {
      for (Eff g : World.all(o.st.trace)) if (setsPayload(g) && World.eq(f, g.recv, w.event)) return "firing an event changes the caller's own event object, at " + g.site;
      return null;
    }));
    // copies are independent and complete: constructors, getters, setters of the event
    World v = new World(p, r, base);
    V n0 = V.sym("name", "java/lang/String"), pl0 = V.sym("payload", null);
    V e = v.make(NSE, n0);
    v.callOne(e, "setPayload", pl0);
    V cp = v.make(NSE, v.typed(e));
    String rule = "NamedStateEvent copy";
    V q1 = v.obs(v.st, cp, "getName"), q2 = v.obs(v.st, cp, "getPayload");
    if (q1 == null || !q1.key.equals("name")) r.bad(rule, null, "a copy of a named event is named " + q1, null, null); else r.ok(rule);
    if (q2 == null || !q2.key.equals("payload")) r.bad(rule, null, "a copy of a named event carries " + q2, null, null); else r.ok(rule);
    v.callOne(e, "setPayload", V.sym("other", null));
    V q3 = v.obs(v.st, cp, "getPayload");
    if (q3 == null || !q3.key.equals("payload")) r.bad(rule, null, "setting a payload on the event changes its copy to " + q3, null, null); else r.ok(rule);
    V q4 = v.obs(v.st, e, "getPayload");
    if (q4 == null || !q4.key.equals("other")) r.bad(rule, null, "getPayload returns " + q4 + " after setPayload", null, null); else r.ok(rule);
    // the drain hands on what it took
    Drain d = drain();
    String rl = "the processed event is the queued one";
    for (Run u : d.runs) {
      List<Eff> done = d.execs(u);
      int first = Integer.MAX_VALUE;
      for (Eff g : done) first = Math.min(first, d.idx(u, g));
      for (Eff g : World.all(u.effs)) if (setsPayload(g))
        for (Eff pq : u.polled) if (World.eq(u.end, g.recv, d.ev(pq.res)) && d.idx(u, g) < first) bad(d, rl, "the payload of a queued event is set at " + g.site + " before it is processed", u);
    }
    for (Run u : d.runs) for (Eff g : d.execs(u)) {
      boolean ok = false;
      for (Eff pq : u.polled) if (World.eq(u.end, g.arg(0), d.ev(pq.res))) ok = true;
      if (ok) r.ok(rl); else bad(d, rl, "the drain processes " + g.arg(0) + " instead of the queued event at " + g.site, u);
    }
    // and processing passes it to the actions
    ChkMachine cm = new ChkMachine(p, r, base);
    ChkMachine.Exec ex = cm.exec();
    ex.w.cases("TransitionTask.execute", ex.outs, ex.w.kase("any").then((o, f) -> {
      for (Eff g : World.effs(o.st.trace, ChkMachine::trans))
        if (g.op.startsWith("State.") && !World.eq(f, g.arg(0), ex.w.event)) return g.op + " receives " + g.arg(0) + " instead of the event at " + g.site;
      for (Eff g : World.all(o.st.trace)) if (setsPayload(g) && World.eq(f, g.recv, ex.w.event)) return "the payload of an event is set while it is processed, at " + g.site;
      return null;
    }));
  }
  private static boolean setsPayload(Eff g) { return g.recv != null && (g.k == Eff.K.CALL && g.op.endsWith(".setPayload") || g.k == Eff.K.WRITE && g.op.endsWith(".payload")); }
  V carried(Fire x, Eff offer) { return x.evField == null ? null : offer.snap.get(offer.arg(0), x.evField); }

  // ---- C13 ---------------------------------------------------------------------------------

  void c13() {
    Fire x = fire();
    World w = x.w;
    w.cases(ROOT, x.outs, w.kase("any event").then(carrier(x)));
    Fire y = fire(true);
    if (y.evField != null) y.w.cases(ROOT + " [other threads interfere]", y.outs, y.w.kase("any event").then(carrier(y)));
    Drain d = drain();
    String rule = "a carrier is given back once, cleared, after its event is finished";
    for (Run u : d.runs) for (Eff pl : u.polled) {
      V elem = pl.res;
      List<Eff> gv = d.gives(u, elem);
      gv.removeIf(g -> g.recv.equals(d.w.queue));
      for (Eff g : d.gives(u, elem)) if (g.recv.equals(d.w.queue)) bad(d, rule, "the carrier goes back into the event queue at " + g.site, u);
      if (x.pool == null && gv.isEmpty()) { r.ok("carriers are not recycled"); continue; }
      if (gv.isEmpty()) { bad(d, rule, "the carrier taken at " + pl.site + " is not given back" + (u.exc != null ? " when " + V.shortName(u.exc.type) + " is thrown" : ""), u); continue; }
      if (gv.size() > 1 || gv.get(0).op.startsWith("REPEATED")) { bad(d, rule, "the carrier taken at " + pl.site + " is given back " + (gv.size() > 1 ? gv.size() + " times" : "in a loop"), u); continue; }
      Eff g = gv.get(0);
      if (x.pool != null && !g.recv.equals(x.pool)) { bad(d, rule, "the carrier goes to " + g.recv + " at " + g.site + ", not to the pool it is taken from", u); continue; }
      int at = d.idx(u, g);
      String err = null;
      for (int i = 0; i < u.effs.size(); i++) {
        Eff h = u.effs.get(i);
        boolean uses = h.k == Eff.K.CALL && (h.op.equals("TransitionTask.execute") || h.op.startsWith("UnexpectedFlowListener."));
        if (i > at && h.k == Eff.K.WRITE && elem.equals(h.recv)) err = "the carrier is changed at " + h.site + " after it was given back at " + g.site;
        if (i > at && uses) err = h.op + " at " + h.site + " comes after the carrier was given back at " + g.site;
      }
      if (err == null && at < d.idx(u, pl)) err = "the carrier is given back at " + g.site + " while it is still in the event queue, from which it is taken at " + pl.site;
      if (err == null && dirty(g.snap, elem)) err = "the carrier is given back at " + g.site + " still holding its event or machine";
      if (err != null) bad(d, rule, err, u); else r.ok(rule);
    }
    // the pool itself
    if (x.pool != null) {
      String t = x.pool.shortType(), rl = "the pool may be used by several threads";
      if (x.pool.k != V.K.OBJ) r.undecided(rl, "pool " + x.pool);
      else if (FIFO.contains(t) || t.equals("ArrayBlockingQueue")) r.ok(rl);
      else {
        boolean locked = true;
        for (Engine.Out o : x.outs) for (Eff g : World.all(o.st.trace)) if (g.k == Eff.K.MUT && x.pool.equals(g.recv) && g.locks.isEmpty()) locked = false;
        if (locked) r.ok(rl);
        else r.bad(rl, null, "carriers are recycled through a " + t + " created at " + x.pool.x + ", which two threads may take the same carrier from", null, null);
      }
    }
  }
  /** What becomes of the carrier an event is queued in. */
  private World.Expect carrier(Fire x) {
    World w = x.w;
    return (o, f) -> {
      List<Eff> of = x.offers(o);
      for (Eff g : of) {
        V c = g.arg(0);
        boolean fresh = c.k == V.K.OBJ && !c.op.startsWith("S") && o.st.heap.values().stream().noneMatch(q -> false);
        boolean taken = false;
        for (Eff h : o.st.trace) {
          if (h == g) break;
          if (h.k == Eff.K.MUT && c.equals(h.res) && h.op.startsWith("queue.poll")) taken = true;
          if (h.k == Eff.K.MUT && c.equals(h.res) && h.op.equals("queue.peek")) return "the carrier queued at " + g.site + " stays in the pool (peeked at " + h.site + ")";
        }
        if (fresh && !bornHere(c, w)) return "the carrier queued at " + g.site + " is not made for this event: " + c;
        if (!fresh && !taken) {
          if (c.k == V.K.FLD || c.k == V.K.APP || c.k == V.K.OBJ) return "the carrier queued at " + g.site + " is not exclusively this event's: " + c;
          throw new World.Undecided("origin of carrier " + c);
        }
        V ev = x.evField == null ? null : g.snap.get(c, x.evField), m = x.machField == null ? null : g.snap.get(c, x.machField);
        if (ev == null || ev.isNull() || m == null || m.isNull()) return "the carrier is queued at " + g.site + " before it is filled";
        // not touched afterwards, unless refused
        int at = o.st.trace.indexOf(g);
        boolean acc = V.TRUE.equals(g.res), back = false;
        for (Eff h : World.all(o.st.trace.subList(at + 1, o.st.trace.size())))
          if (h.k == Eff.K.MUT && w.queue.equals(h.recv) && h.op.startsWith("queue.remove") && c.equals(h.arg(0)) && !V.FALSE.equals(h.res)) back = true;
        int gives = 0;
        for (int i = at + 1; i < o.st.trace.size(); i++) {
          Eff h = o.st.trace.get(i);
          if (acc && h.k == Eff.K.WRITE && c.equals(h.recv)) return "the queued carrier is changed at " + h.site;
          if (h.k == Eff.K.MUT && h.op.startsWith("queue.offer") && !h.recv.equals(w.queue) && c.equals(h.arg(0))) {
            gives++;
            if (acc && !back) return "the queued carrier is also given back to the pool at " + h.site;
            if (dirty(h.snap, c)) return "the carrier is given back at " + h.site + " with what it carried";
          }
        }
        if (gives > 1) return "a refused carrier is given back twice";
        if (gives == 0 && back && x.pool != null) return "the carrier taken back out of the queue is not given back";
        if (gives == 0 && V.FALSE.equals(g.res) && x.pool != null && x.accepted(o).isEmpty()) return "the carrier refused at " + g.site + " is not given back";
      }
      // a carrier that is taken and not queued must not stay in use twice
      return null;
    };
  }
  private boolean bornHere(V c, World w) {
    try { return Integer.parseInt(c.op) >= w.st.next[0]; } catch (NumberFormatException e) { return false; }
  }
  private boolean dirty(St s, V c) {
    for (St.Cell q : s.heap.values()) if (q.base.equals(c) && !q.f.startsWith("$") && q.val != null && !q.val.isNull()) return true;
    return false;
  }

  // ---- C27 ---------------------------------------------------------------------------------

  /** The cell whose value this is, when it is a number kept by the library itself. */
  private static V counterCell(V v) {
    return v.k == V.K.FLD && v.a[0].k == V.K.OBJ && ("I".equals(v.type) || "J".equals(v.type)) ? v : null;
  }
  private static boolean on(Eff g, V cell) {
    return cell.a[0].equals(g.recv) && (g.op.equals(cell.op) || g.op.endsWith("." + cell.op)) && (g.k == Eff.K.WRITE || g.k == Eff.K.READ || g.k == Eff.K.CAS);
  }
  /** By how much these steps change a counter; null when that is not known. */
  private static Integer delta(List<Eff> l, V cell) {
    int n = 0;
    V last = null;
    for (Eff g : l) {
      if (g.k == Eff.K.LOOP) {
        for (Eff h : World.all(List.of(g))) if (on(h, cell) && h.k != Eff.K.READ) return null;
        continue;
      }
      if (!on(g, cell)) continue;
      if (g.k == Eff.K.READ) { last = g.res; continue; }
      if (g.k == Eff.K.CAS && !V.TRUE.equals(g.res)) continue;
      V was = g.k == Eff.K.CAS ? g.arg(0) : g.res != null ? g.res : last != null ? last : cell, now = g.k == Eff.K.CAS ? g.arg(1) : g.arg(0);
      St.Lin d = St.lin(now, was);
      if (!d.co.isEmpty()) return null;
      n += (int) d.c;
    }
    return n;
  }
  /** A size kept in a counter: one up before an event is queued, one down when it is finished or refused. */
  private void counter() {
    Fire x = fire();
    World w = x.w;
    V cell = counterCell(w.obs(w.st, w.gsm, "getEventQueueSize"));
    if (cell == null) throw new World.Undecided("the counter of unfinished events was not recognised");
    w.cases(ROOT, x.outs, w.kase("any event").then((o, f) -> {
      List<Eff> acc = x.accepted(o);
      Integer d = delta(o.st.trace, cell);
      if (d == null) throw new World.Undecided("the counter of unfinished events changes by an unknown amount");
      if (acc.isEmpty()) return d == 0 ? null : "the count of unfinished events changes by " + d + " although the event is not queued";
      if (d != 1) return "the count of unfinished events changes by " + d + " when an event is queued at " + acc.get(0).site;
      Integer b = delta(o.st.trace.subList(0, o.st.trace.indexOf(acc.get(0))), cell);
      return b != null && b == 1 ? null : "the event is queued at " + acc.get(0).site + " before it is counted";
    }));
    Drain d = drain();
    V c2 = counterCell(d.w.obs(d.w.st, d.w.gsm, "getEventQueueSize"));
    String rule = "an event counts until it is finished";
    for (Run u : d.runs) {
      if (c2 == null) { r.undecided(rule, "the counter was not recognised"); break; }
      Integer n = delta(u.effs, c2);
      if (n == null) { r.undecided(rule, "the counter changes by an unknown amount"); continue; }
      int took = u.polled.size();
      String err = n == -took ? null : took == 0 ? "the count of unfinished events changes by " + n + " although no event was taken"
          : "the count of unfinished events changes by " + n + " when the event taken at " + u.polled.get(0).site + " is finished" + (u.exc != null ? " by " + V.shortName(u.exc.type) : "");
      for (Eff e : d.execs(u)) {
        Integer b = delta(u.effs.subList(0, Math.max(0, d.idx(u, e))), c2);
        if (err == null && took == 1 && b != null && b != 0) err = "the event no longer counts while it is processed at " + e.site;
      }
      if (err != null) bad(d, rule, err, u); else r.ok(rule);
    }
    r.use(w.e);
  }

  void c27() {
    boolean counted = false;
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) for (boolean any : new boolean[]{false, true}) {
      World w = any ? machine(kind) : whole(kind);
      String rule = "GenericStateMachine.getEventQueueSize with " + kind + (any ? ", in any state of the machine" : "");
      V size = V.app("size", "I", w.queue);
      r.roots.add(rule);
      for (Engine.Out o : w.call(w.st.copy(), w.gsm, "getEventQueueSize")) {
        r.paths++;
        if (o.exc != null) { r.bad(rule, null, "throws " + V.shortName(o.exc.type), o.st, o.exc); continue; }
        if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
        long[] d = o.st.range(o.val, size);
        if (counterCell(o.val) != null) { counted = true; r.ok(rule + " [a counter]"); continue; }
        if (d[0] == 0 && d[1] == 0) {
          r.ok(rule + " [waiting events]");
          r.bad(rule + " [event in progress]", "in-progress-event-not-counted", "the size is that of the queue, so an event being processed is not counted", o.st, null);
        } else if (o.val.mentions(size)) {
          St.Lin l = St.lin(o.val, size);
          boolean counter = true;
          for (V t : l.terms.values()) if (!t.op.equals("$val") && t.k != V.K.FLD) counter = false;
          if (counter && !l.co.isEmpty()) r.undecided(rule, "size is " + o.val);
          else r.bad(rule, null, "the reported size is " + o.val + " when " + size + " events wait", o.st, null);
        } else if (o.val.k == V.K.FLD || o.val.is("+") && St.lin(o.val, size).terms.values().stream().anyMatch(t -> t.k != V.K.SYM && !t.equals(size))) r.undecided(rule, "size is " + o.val);
        else r.bad(rule, null, "the reported size is " + o.val + ", not the number of queued events", o.st, null);
      }
      r.use(w.e);
    }
    if (counted) counter();
    // nothing but accepted events is ever queued, each once
    Fire x = fire();
    x.w.cases(ROOT, x.outs, x.w.kase("any event").then((o, f) -> x.accepted(o).size() > 1 ? "the event is counted twice: queued again at " + x.accepted(o).get(1).site : null));
    Drain d = drain();
    String rl = "a finished event is no longer counted";
    for (Run u : d.runs) {
      if (u.cont && u.polled.isEmpty() && !d.execs(u).isEmpty()) bad(d, rl, "an event is processed without leaving the queue", u);
      else r.ok(rl);
    }
  }

  // ---- C28 ---------------------------------------------------------------------------------

  static boolean blocking(Eff g) {
    if (g.k != Eff.K.CALL && g.k != Eff.K.MUT) return false;
    String n = g.op.substring(g.op.lastIndexOf('.') + 1);
    if (g.k == Eff.K.MUT) return g.op.equals("queue.put") || g.op.equals("queue.take") || g.op.equals("queue.transfer")
        || (g.op.equals("queue.offer") || g.op.equals("queue.poll")) && g.args.size() > 1;
    if (g.op.startsWith("State") || g.op.startsWith("UnexpectedFlow")) return false;
    return Set.of("await", "sleep", "join", "acquire", "acquireUninterruptibly", "wait", "park", "parkNanos", "parkUntil", "invokeAll",
        "invokeAny", "exchange", "awaitTermination", "awaitQuiescence", "arriveAndAwaitAdvance", "waitFor").contains(n)
        || (n.equals("get") || n.equals("join")) && g.op.contains("Future") || n.equals("take") || n.equals("put") && g.op.contains("Queue")
        || n.equals("acquire") || n.equals("lock") || n.equals("yield") && false;
  }

  /** Does holding one lock keep another thread from taking the other? */
  static boolean excludes(V a, V b) {
    if (a.equals(b)) return !a.is("readLock");
    return half(a).equals(half(b)) && !(a.is("readLock") && b.is("readLock"));
  }
  private static V half(V l) { return l.is("readLock") || l.is("writeLock") ? l.a[0] : l; }

  void c28() {
    // locks held while user code runs during processing
    Set<V> held = new HashSet<>();
    Map<V, String> where = new HashMap<>();
    ChkMachine cm = new ChkMachine(p, r, base);
    List<List<Engine.Out>> processing = new ArrayList<>();
    processing.add(cm.exec().outs);
    try { processing.add(drain().outs); } catch (World.Undecided u) { r.undecided("drain", u.getMessage()); }
    for (List<Engine.Out> l : processing) for (Engine.Out o : l) for (Eff g : World.all(o.st.trace)) {
      if (g.k != Eff.K.CALL || g.locks.isEmpty()) continue;
      for (V k : g.locks) { held.add(k); where.putIfAbsent(k, g.op + " at " + g.site); }
    }
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) {
      World w = whole(kind);
      List<Engine.Out> outs = w.call(w.st.copy(), w.gsm, "fire", w.event);
      w.cases("GenericStateMachine.fire with " + kind, outs, w.kase("running").then((o, f) -> {
        for (Eff g : World.all(o.st.trace)) {
          if (blocking(g)) return "the firing path may block in " + g.op + " at " + g.site;
          if (g.k == Eff.K.LOCK) {
            if (held.stream().anyMatch(k -> excludes(k, g.recv))) return "the firing path takes, at " + g.site + ", the lock " + g.recv + " that is held during " + where.entrySet().stream().filter(k -> excludes(k.getKey(), g.recv)).findFirst().get().getValue();
          }
          if (g.k == Eff.K.LOOP) {
            for (Loop.Iter it : g.loop.iters) {
              boolean progress = false;
              for (Eff h : it.effs) {
                if (h.k == Eff.K.ITER && h.is("iter.next")) progress = true;
                if (h.k == Eff.K.CAS && V.FALSE.equals(h.res)) progress = true;
              }
              for (V u : it.upd.values()) if (u != null && (u.is("+") || u.is("-"))) progress = true;
              if (!progress) return "the firing path loops at " + g.site + " until another thread makes progress";
            }
          }
        }
        return null;
      }));
    }
  }
}
