package sa;

import java.util.*;
import java.util.function.*;

/** Rules about configuration, independence of machines and the app lifecycle: C14, C15, C21-C23. */
final class ChkApp {
  final Prog p; final Rep r; final Engine base;
  final ChkMisc misc;
  ChkApp(Prog p, Rep r, Engine b) { this.p = p; this.r = r; base = b; misc = new ChkMisc(p, r, b); }

  World world() {
    World w = new World(p, r, base);
    w.st = w.e.initialState();
    return w;
  }
  String type(String simple) { return p.cls(simple).name; }
  static final String ISE = "java/lang/IllegalStateException";
  static final String FACTORY = "EventProcessingStrategyFactory", UTIL = "LifecycleStateMachineUtil";

  // ---- C14 ---------------------------------------------------------------------------------

  /** Everything an object leads to. */
  void reach(World w, V v, Map<String, V> seen) {
    if (v == null || v.isConst() || seen.containsKey(v.key)) return;
    if (v.k == V.K.OBJ) {
      if (v.type != null && v.type.startsWith("org/apache/logging/")) return;
      seen.put(v.key, v);
      for (St.Cell c : new ArrayList<>(w.st.heap.values())) {
        if (!c.base.equals(v) || c.val == null) continue;
        if (c.f.equals("$ctor")) {
          for (V a : c.val.a) {
            // a thread factory only decides how threads are named
            if (a.type != null && Boolean.TRUE.equals(p.subtype(a.type, "java/util/concurrent/ThreadFactory"))) continue;
            reach(w, a, seen);
          }
        } else reach(w, c.val, seen);
      }
      return;
    }
    if (v.k == V.K.RES || v.k == V.K.APP && v.a.length == 0) seen.put(v.key, v);
    if (v.k == V.K.APP && v.op.startsWith("static:")) seen.put(v.key, v);
    for (V a : v.a) reach(w, a, seen);
  }
  /** May an object that two machines lead to carry something from one to the other? */
  boolean carries(World w, V v) {
    if (v.k == V.K.APP) return !v.op.startsWith("empty") && v.type != null && !v.type.startsWith("java/lang/");
    if (v.k == V.K.RES) return true;
    V tag = w.st.get(v, "$tag");
    if (tag != null && "immutable".equals(tag.x)) return false;
    if (v.type == null) return true;
    if (!p.inApp(v.type)) return !v.type.startsWith("java/lang/") || v.type.equals("java/lang/Object") || v.type.equals("java/lang/Thread");
    // an object of the library itself: only when a field of it changes after construction
    for (String t = v.type; p.inApp(t); t = p.classes.get(t).superName) {
      for (String f : w.mutableFields()) if (f.startsWith(V.shortName(t) + ".")) return !v.op.startsWith("S") || !t.equals(type("NamedStateEvent"));
    }
    return false;
  }
  void disjoint(World w, String rule, V a, V b) {
    Map<String, V> x = new TreeMap<>(), y = new TreeMap<>();
    reach(w, a, x);
    reach(w, b, y);
    r.roots.add(rule);
    if (World.imprecise(w.st)) { r.undecided(rule, "construction has approximated steps " + World.notes(w.st)); return; }
    if (a.equals(b)) { r.bad(rule, null, "the same " + a.shortType() + " is handed out twice", null, null); return; }
    int n = 0;
    for (V v : x.values()) {
      n++;
      if (!y.containsKey(v.key) || !carries(w, v)) { r.ok(rule); continue; }
      r.bad(rule, null, "both lead to one " + v.shortType() + (v.k == V.K.OBJ ? ", created at " + v.x : " (" + v + ")"), null, null);
    }
    if (n == 0) r.undecided(rule, "nothing was reached");
  }

  void c14() {
    String cfg = "Config";
    String[] kinds = {"createDefaultStrategy", "createDropDuplicateStrategy"};
    for (String k1 : kinds) for (String k2 : kinds) {
      World w = world();
      V a = make(w, k1), b = make(w, k2);
      disjoint(w, k1 + " and " + k2 + " without configuration", a, b);
      r.use(w.e);
      for (int mask = 0; mask < 4; mask++) {
        w = world();
        V c = w.make(cfg);
        if ((mask & 1) != 0) c = w.callOne(c, "withThreadName", V.sym("thread", "java/lang/String").nn());
        if ((mask & 2) != 0) c = w.callOne(c, "withMaxQueueSize", V.sym("max", "I"));
        a = make(w, k1, c);
        b = make(w, k2, c);
        disjoint(w, k1 + " and " + k2 + " with one configuration", a, b);
        r.use(w.e);
      }
      w = world();
      a = make(w, k1, w.make(cfg));
      b = make(w, k2, w.make(cfg));
      disjoint(w, k1 + " and " + k2 + " with separate configurations", a, b);
      w = world();
      a = make(w, k1);
      b = make(w, k2, w.make(cfg));
      disjoint(w, k1 + " without and " + k2 + " with configuration", a, b);
      r.use(w.e);
    }
    // machines
    World w = world();
    V bl = w.make("Builder");
    V m1 = w.callOne(bl, "build"), m2 = w.callOne(bl, "build");
    disjoint(w, "two machines from one builder", m1, m2);
    V m3 = w.callOne(w.make("Builder"), "build");
    disjoint(w, "machines from two builders", m1, m3);
    disjoint(w, "machines from two builders", m2, m3);
    // configured machines too
    V s1 = w.sym("s1", "State").nn(), s2 = w.sym("s2", "State").nn();
    w.distinct(s1);
    w.distinct(s2);
    w.callOne(m1, "initialSate", s1);
    w.callOne(m2, "initialSate", s2);
    disjoint(w, "two configured machines from one builder", m1, m2);
    r.use(w.e);
    w = world();
    V b2 = w.make("Builder");
    b2 = w.callOne(b2, "setEventProcessingStrategy", make(w, kinds[0]));
    m1 = w.callOne(b2, "build");
    b2 = w.callOne(b2, "setEventProcessingStrategy", make(w, kinds[1]));
    m2 = w.callOne(b2, "build");
    disjoint(w, "two machines from one builder with a strategy each", m1, m2);
    r.use(w.e);
    w = world();
    V p1 = w.make("AbstractAppService", V.sym("ctx1", type("AppContext")).nn(), V.sym("exit1", "Z"));
    V p2 = w.make("AbstractAppService", V.sym("ctx2", type("AppContext")).nn(), V.sym("exit2", "Z"));
    disjoint(w, "two apps", p1, p2);
    r.use(w.e);
    w = world();
    V n1 = w.make("NamedState", V.sym("n1", "java/lang/String").nn());
    V n2 = w.make("NamedState", V.sym("n2", "java/lang/String").nn());
    disjoint(w, "two states", n1, n2);
    r.use(w.e);
    statics();
  }
  V make(World w, String kind, V... a) {
    Engine.Out o = w.normal(w.callStatic(w.st, FACTORY, kind, a), kind);
    w.st = o.st;
    return o.val;
  }
  /** Nothing a machine does changes anything static. */
  private void statics() {
    ChkStrategy cs = new ChkStrategy(p, r, base);
    List<List<Engine.Out>> all = new ArrayList<>(cs.firingAndDraining());
    World w = new World(p, r, base).machine().configured().havoc();
    V x = w.sym("x", "State").nn(), ev = w.sym("event", "StateEvent").nn();
    for (String m : List.of("start", "stop", "getEventQueueSize", "itEnds", "itDoesNotTransition")) all.add(w.call(w.st.copy(), w.gsm, m));
    for (String m : List.of("startInState", "initialSate", "when", "itTransitionsTo")) all.add(w.call(w.st.copy(), w.gsm, m, x));
    for (String m : List.of("fire", "receives")) all.add(w.call(w.st.copy(), w.gsm, m, ev));
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) {
      World y = cs.whole(kind);
      V e2 = y.sym("event", "StateEvent").nn();
      all.add(y.call(y.st.copy(), y.gsm, "fire", e2));
      all.add(y.call(y.st.copy(), y.gsm, "getEventQueueSize"));
    }
    String rule = "a machine in use changes nothing static";
    for (List<Engine.Out> outs : all) for (Engine.Out o : outs) {
      r.paths++;
      boolean bad = false;
      for (Eff g : World.all(o.st.trace)) {
        if (g.k != Eff.K.WRITE && g.k != Eff.K.MUT && g.k != Eff.K.CAS || g.recv == null) continue;
        if (!isStatic(g.recv)) continue;
        bad = true;
        r.bad(rule, null, g.op + " changes the static " + g.recv + " at " + g.site, o.st, o.exc);
      }
      if (!bad) r.ok(rule);
    }
    r.use(w.e);
    // nor does anything it does depend on what the making of others left behind
    Set<V> left = new LinkedHashSet<>();
    for (Object k : new Object[]{null, "createDefaultStrategy", "createDropDuplicateStrategy"}) {
      World c = world();
      V b = c.make("Builder");
      if (k != null) c.callOne(b, "setEventProcessingStrategy", make(c, (String) k));
      c.callOne(b, "build");
      for (Eff g : World.all(c.st.trace))
        if ((g.k == Eff.K.WRITE || g.k == Eff.K.MUT || g.k == Eff.K.CAS) && g.recv != null && isStatic(g.recv)) left.add(g.recv);
      r.use(c.e);
    }
    // what the making of a machine puts into something static is that machine's, not for all to use
    Map<V, Eff> own = new LinkedHashMap<>();
    for (Object k : new Object[]{null, "createDefaultStrategy", "createDropDuplicateStrategy"}) {
      World c = world();
      V bl = c.make("Builder");
      if (k != null) c.callOne(bl, "setEventProcessingStrategy", make(c, (String) k));
      V m = c.callOne(bl, "build");
      for (Eff g : World.all(c.st.trace)) {
        if ((g.k != Eff.K.WRITE && g.k != Eff.K.MUT && g.k != Eff.K.CAS) || g.recv == null || !isStatic(g.recv)) continue;
        for (int i = 0; i < g.args.size(); i++)
          if ((g.k != Eff.K.MUT || i > 0 || !g.op.startsWith("map.")) && g.args.get(i) != null && reaches(c.st, g.args.get(i), m, 3)) own.putIfAbsent(g.recv, g);
      }
      r.use(c.e);
    }
    String ru = "a machine in use does not use what the making of a machine put into something static";
    for (Map.Entry<V, Eff> q : own.entrySet()) for (List<Engine.Out> outs : all) for (Engine.Out o : outs) {
      Eff at = null;
      for (Eff g : World.all(o.st.trace)) if (g.k == Eff.K.READ && q.getKey().equals(g.recv)) { at = g; break; }
      if (at != null) r.bad(ru, null, "it reads, at " + at.site + ", the static " + q.getKey() + " that the machine made last has set at " + q.getValue().site, o.st, o.exc);
      else r.ok(ru);
    }
    String rl = "a machine in use does not depend on how many others were made";
    for (V v : left) for (List<Engine.Out> outs : all) for (Engine.Out o : outs) {
      boolean dep = o.val != null && o.val.mentions(v);
      for (Map.Entry<String, V> a : o.st.atoms.entrySet()) dep |= o.st.facts.containsKey(a.getKey()) && a.getValue().mentions(v);
      for (String k : o.st.ivl.keySet()) dep |= k.contains(v.key);
      if (dep) r.bad(rl, null, "what it does depends on the static " + v + " that making a machine changes", o.st, o.exc);
      else r.ok(rl);
    }
  }
  /** Can the machine be reached from this value? */
  private static boolean reaches(St st, V v, V m, int depth) {
    if (v.mentions(m)) return true;
    if (depth == 0 || v.k != V.K.OBJ && v.k != V.K.LAM) return false;
    for (St.Cell c : st.heap.values()) if (c.base.equals(v) && c.val != null && reaches(st, c.val, m, depth - 1)) return true;
    for (V a : v.a) if (reaches(st, a, m, depth - 1)) return true;
    return false;
  }
  static boolean isStatic(V v) {
    if (v.k == V.K.OBJ) return v.op.startsWith("S");
    if (v.k == V.K.SYM) return v.op.startsWith("static:");
    if (v.k == V.K.FLD) return isStatic(v.a[0]);
    return false;
  }

  // ---- C15 ---------------------------------------------------------------------------------

  /** A machine in one step of its configuration, with any outcomes configured before. */
  final class Stage {
    World w; V m, map, s, e; char kind;
    V inner() { return w.mapget(map, s); }
  }
  Stage stage(char kind) {
    Stage g = new Stage();
    g.kind = kind;
    World w = g.w = world();
    w.machine();
    g.m = w.gsm;
    w.st.trace.clear();
    if (kind == 'U') return g;
    Map<String, V> made = new HashMap<>();
    for (Map.Entry<String, St.Cell> c : w.st.heap.entrySet()) if (c.getValue().f.equals("$map")) made.put(c.getKey(), c.getValue().val);
    g.s = user(w, "markedState");
    V i0 = user(w, "initState"), t0 = user(w, "t0");
    V e0 = userEvent(w, "e0");
    w.callOne(g.m, "initialSate", i0);
    for (St.Cell c : new ArrayList<>(w.st.heap.values()))
      if (c.f.equals("$map")) for (int i = 0; i < c.val.a.length; i += 2) if (c.val.a[i].equals(i0)) g.map = c.base;
    if (g.map == null) throw new World.Undecided("the transition table was not recognised");
    w.callOne(g.m, "receives", e0);
    w.callOne(g.m, "itTransitionsTo", t0);
    w.st.assume(St.equalsTo(g.s, i0), false);
    w.st.assume(St.same(g.s, i0), false);
    if (kind != 'I') w.callOne(g.m, "when", g.s);
    if (kind == 'E') {
      g.e = userEvent(w, "markedEvent");
      w.callOne(g.m, "receives", g.e);
    }
    boolean entered = false;
    if (kind == 'E')
      for (Engine.Out l : w.e.lib.lookup(w.st.copy(), g.map, g.s)) for (Engine.Out k : w.e.lib.lookup(l.st, l.val, g.e)) entered |= k.val.isNull() && Boolean.TRUE.equals(k.st.decide(w.e.lib.presentAtom(k.val)));
    // any outcomes may have been configured before
    for (Map.Entry<String, St.Cell> q : new ArrayList<>(w.st.heap.entrySet())) {
      St.Cell c = q.getValue();
      if (c.f.equals("$map") && !c.base.op.startsWith("S") && !c.val.equals(made.get(q.getKey()))) w.st.drop(c.base, c.f);
    }
    w.st.facts.remove(St.equalsTo(g.s, i0).key);
    w.st.facts.remove(St.same(g.s, i0).key);
    w.st.trace.clear();
    w.e.nullValues = true;
    if (kind != 'I') {
      w.st.assume(St.isNull(g.inner()), false);
      w.st.assume(V.app("haskey", "Z", g.map, g.s), true);
      // naming an event gives it an entry
      if (entered) w.st.assume(V.app("haskey", "Z", g.inner(), g.e), true);
    }
    return g;
  }
  static final List<String> RESERVED = List.of("_END_", "_UNINITIALISED_", "_NOOP_");
  V user(World w, String n) {
    V v = w.sym(n, "State").nn();
    name(w, v, RESERVED);
    w.distinct(v);
    return v;
  }
  V userEvent(World w, String n) {
    V v = w.sym(n, "StateEvent").nn();
    name(w, v, List.of("_immediate_"));
    w.distinct(v);
    return v;
  }
  private void name(World w, V v, List<String> not) {
    V nm = V.app("getName", "java/lang/String", v);
    w.st.assume(St.isNull(nm), false);
    for (String s : not) w.st.assume(St.equalsTo(nm, V.str(s)), false);
  }
  V reserved(World w, String type, String nm, boolean own) {
    if (own) {
      V o = w.make(type.equals("State") ? "NamedState" : "NamedStateEvent", V.str(nm));
      return o;
    }
    V v = w.sym("reserved" + nm, type).nn();
    V n = V.app("getName", "java/lang/String", v);
    w.st.assume(St.isNull(n), false);
    w.st.assume(St.equalsTo(n, V.str(nm)), true);
    for (String o : RESERVED) if (!o.equals(nm)) w.st.assume(St.equalsTo(n, V.str(o)), false);
    return v;
  }

  /** Nothing configured so far has changed. */
  private String unchanged(Stage g, Engine.Out o) {
    for (Eff f : World.effs(o.st.trace, x -> x.k == Eff.K.MUT)) {
      if (placeholder(g, o, f)) continue;
      return f.op.replace("REPEATED ", "repeated ") + f.args + " at " + f.site;
    }
    return null;
  }
  private String scalars(Stage g, St before, St after) {
    for (St.Cell c : after.heap.values()) {
      if (!c.base.equals(g.m) || c.f.startsWith("$")) continue;
      V old = before.get(c.base, c.f);
      if (old != null && !old.equals(c.val)) return c.f + " becomes " + c.val;
    }
    return null;
  }
  /** An entry without outcome for a state or an event that had no entry. */
  private boolean placeholder(Stage g, Engine.Out o, Eff f) {
    if (!f.op.equals("map.put") || f.args.size() != 2) return false;
    V val = f.arg(1);
    if (g.map == null || f.recv.equals(g.map) || g.kind == 'U') {
      if (val.k == V.K.OBJ && V.num(0).equals(g.w.e.lib.size(f.snap, val))) return g.kind == 'U' || absent(g, o, f);
      return false;
    }
    return val.isNull() && absent(g, o, f);
  }
  private boolean absent(Stage g, Engine.Out o, Eff f) {
    V cur = V.app("mapget", null, f.recv, f.arg(0));
    return Boolean.TRUE.equals(o.st.decideNull(cur)) || Boolean.FALSE.equals(o.st.decide(V.app("haskey", "Z", f.recv, f.arg(0))));
  }
  World.Expect rejected(Stage g) {
    return (o, f) -> {
      if (o.exc == null) return "the step is accepted";
      if (!ISE.equals(o.exc.type)) return "the step fails with " + V.shortName(o.exc.type);
      // an entry without outcome counts as well: a state with an empty row no longer ends the machine, an event without outcome keeps it from starting
      List<Eff> muts = World.effs(o.st.trace, x -> x.k == Eff.K.MUT);
      if (!muts.isEmpty()) return "the rejected step has changed the table by " + muts.get(0).op.replace("REPEATED ", "repeated ") + muts.get(0).args + " at " + muts.get(0).site;
      String c = scalars(g, g.w.st, o.st);
      return c == null ? null : "the rejected step has changed what is being configured: " + c;
    };
  }
  /** An outcome is recorded, and the step is over. */
  World.Expect outcome(Stage g, V event, V target) {
    return (o, f) -> {
      if (o.exc != null) return "a valid step fails with " + V.shortName(o.exc.type);
      if (!g.m.equals(o.val)) return "the step returns " + o.val;
      List<Eff> puts = World.effs(o.st.trace, x -> x.k == Eff.K.MUT && !placeholder(g, o, x));
      if (puts.isEmpty()) return "no outcome is recorded";
      Eff put = puts.get(0);
      if (puts.size() > 1) return "more than one change is made, also " + World.list(puts.subList(1, puts.size())) + " at " + puts.get(1).site;
      if (!put.op.equals("map.put") || !World.eq(f, put.recv, g.inner()) || !World.eq(f, put.arg(0), event) || !World.eq(f, put.arg(1), target))
        return "recorded is " + World.list(puts) + " at " + put.site + " instead of " + event + " -> " + target + " for " + g.s;
      return after(g, o.st, 'I', null, null);
    };
  }
  /** Checks what the next step may be. */
  String after(Stage g, St st, char kind, V s, V e) {
    World w = g.w;
    V y = w.sym("nextState", "State").nn(), fe = w.sym("nextEvent", "StateEvent").nn();
    St t = st.copy();
    St keep = w.st;
    w.st = t;
    name(w, y, RESERVED);
    w.distinct(y);
    name(w, fe, List.of("_immediate_"));
    w.distinct(fe);
    w.st = keep;
    if (kind == 'I') {
      for (String m : List.of("itEnds", "itDoesNotTransition")) if (!onlyRejects(w.call(t.copy(), g.m, m))) return m + "() is accepted next, although no state is being configured";
      if (!onlyRejects(w.call(t.copy(), g.m, "itTransitionsTo", y))) return "itTransitionsTo() is accepted next, although no state is being configured";
      if (!onlyRejects(w.call(t.copy(), g.m, "receives", fe))) return "receives() is accepted next, although no state is being configured";
      List<Engine.Out> whens = w.call(t.copy(), g.m, "when", y);
      if (!accepts(whens)) return "when() is rejected next, although nothing is being configured";
      for (Engine.Out o : whens) {
        // nothing is left over from the step before
        if (!onlyRejects(w.call(o.st.copy(), g.m, "itTransitionsTo", y)) || !onlyRejects(w.call(o.st.copy(), g.m, "itDoesNotTransition")))
          return "an outcome is accepted for the state marked next, although no event has been received";
      }
      return null;
    }
    if (!onlyRejects(w.call(t.copy(), g.m, "when", y))) return "when() is accepted next, although a state is being configured";
    if (kind == 'M') {
      if (!onlyRejects(w.call(t.copy(), g.m, "itTransitionsTo", y))) return "itTransitionsTo() is accepted next, without an event";
      if (!onlyRejects(w.call(t.copy(), g.m, "itDoesNotTransition"))) return "itDoesNotTransition() is accepted next, without an event";
      boolean any = false;
      for (Engine.Out o : w.call(t.copy(), g.m, "receives", fe)) {
        if (o.exc != null) continue;
        any = true;
        boolean taken = false;
        if (g.map != null) for (Engine.Out l : w.e.lib.lookup(o.st, g.map, s)) for (Engine.Out k : w.e.lib.lookup(l.st, l.val, fe)) if (Boolean.FALSE.equals(o.st.decideNull(k.val))) taken = true;
        if (taken) continue;
        String err = records(g, o.st, s, fe, y);
        if (err != null) return err;
      }
      return any ? null : "receives() is rejected next";
    }
    return records(g, t, s, e, y);
  }
  /** With a state and an event marked, an outcome is recorded for exactly them. */
  private String records(Stage g, St st, V s, V e, V y) {
    boolean any = false;
    for (Engine.Out o : g.w.call(st.copy(), g.m, "itTransitionsTo", y)) {
      if (o.exc != null) continue;
      any = true;
      int from = st.trace.size();
      List<Eff> puts = World.effs(o.st.trace.subList(Math.min(from, o.st.trace.size()), o.st.trace.size()), x -> x.k == Eff.K.MUT && x.op.equals("map.put"));
      if (puts.size() != 1 || !World.eq(o.st, puts.get(0).arg(0), e) || !World.eq(o.st, puts.get(0).arg(1), y)) return "the outcome set next is recorded as " + World.list(puts);
      V rec = puts.get(0).recv;
      if (g.map != null) {
        boolean own = false;
        for (Engine.Out l : g.w.e.lib.lookup(o.st, g.map, s)) if (World.eq(l.st, l.val, rec)) own = true;
        if (!own) return "the outcome set next is recorded for another state, in " + rec;
      }
    }
    return any ? null : "an outcome for the event just received is rejected";
  }
  private boolean onlyRejects(List<Engine.Out> outs) {
    for (Engine.Out o : outs) if (o.exc == null || !ISE.equals(o.exc.type)) return false;
    return true;
  }
  private boolean accepts(List<Engine.Out> outs) {
    for (Engine.Out o : outs) if (o.exc != null) return false;
    return !outs.isEmpty();
  }

  void c15() {
    for (char k : "UMEI".toCharArray()) {
      String ph = k == 'U' ? "no initial state yet" : k == 'M' ? "a state is being configured" : k == 'E' ? "an event is being configured" : "nothing is being configured";
      // reserved names first: never accepted
      for (boolean own : new boolean[]{false, true}) {
        for (String n : RESERVED) for (String op : List.of("initialSate", "when", "itTransitionsTo")) {
          Stage g = stage(k);
          V x = reserved(g.w, "State", n, own);
          g.w.st.trace.clear();
          step(g, op, ph, g.w.kase("reserved name " + n).then(rejected(g)), x);
        }
        if (own) for (String get : List.of("getEndState", "getNoopState")) for (String op : List.of("initialSate", "when", "itTransitionsTo")) {
          // the machine's own, which listeners and getCurrentState() hand out
          Stage g = stage(k);
          V x = g.w.obs(g.w.st, g.m, get);
          if (x == null) continue;
          g.w.st.trace.clear();
          step(g, op, ph, g.w.kase("the machine's own " + (get.equals("getEndState") ? "end" : "no-op") + " state").then(rejected(g)), x);
        }
        Stage g = stage(k);
        V x = reserved(g.w, "StateEvent", "_immediate_", own);
        g.w.st.trace.clear();
        step(g, "receives", ph, g.w.kase("reserved name").then(rejected(g)), x);
      }
      Stage g = stage(k);
      V x = user(g.w, "x"), f = userEvent(g.w, "f");
      World w = g.w;
      V end = w.obs(w.st, g.m, "getEndState"), noop = w.obs(w.st, g.m, "getNoopState"), imm = w.obs(w.st, g.m, "getImmediateEvent");
      // a second initial state, or the first
      if (k == 'U') {
        step(g, "initialSate", ph, w.kase("first initial state").then((o, ff) -> {
          if (o.exc != null) return "a valid step fails with " + V.shortName(o.exc.type);
          if (!g.m.equals(o.val)) return "the step returns " + o.val;
          for (Eff q : World.effs(o.st.trace, z -> z.k == Eff.K.MUT)) {
            if (!q.op.equals("map.put") || q.args.size() != 2) return "the table is changed by " + World.list(List.of(q)) + " at " + q.site;
            V val = q.arg(1);
            if (!val.is("emptyMap") && !V.num(0).equals(w.e.lib.size(q.snap, val))) return "an outcome is recorded at " + q.site;
          }
          Stage h = new Stage();
          h.w = w; h.m = g.m; h.kind = 'M';
          for (St.Cell c : new ArrayList<>(o.st.heap.values()))
            if (c.f.equals("$map")) for (int i = 0; i < c.val.a.length; i += 2) if (c.val.a[i].equals(x)) h.map = c.base;
          return after(h, o.st, 'M', x, null);
        }), x);
      } else step(g, "initialSate", ph, w.kase("second initial state").then(rejected(g)), x);
      // marking a state
      if (k == 'I') {
        step(g, "when", ph, w.kase("a state").then((o, ff) -> {
          if (o.exc != null) return "a valid step fails with " + V.shortName(o.exc.type);
          if (!g.m.equals(o.val)) return "the step returns " + o.val;
          String c = unchanged(g, o);
          if (c != null) return "marking a state changes the table by " + c;
          St t = o.st.copy();
          return after(g, t, 'M', x, null);
        }), x);
      } else step(g, "when", ph, w.kase(k == 'U' ? "before the initial state" : "while one is being configured").then(rejected(g)), x);
      // an event
      if (k == 'M') {
        step(g, "receives", ph, w.kase("an event").then((o, ff) -> {
          if (o.exc != null) return "a valid step fails with " + V.shortName(o.exc.type);
          if (!g.m.equals(o.val)) return "the step returns " + o.val;
          String c = unchanged(g, o);
          if (c != null) return "naming an event changes the table by " + c;
          // when it has an outcome already, another one is refused
          V cur = w.mapget(g.inner(), f);
          if (Boolean.FALSE.equals(o.st.decideNull(cur))) {
            return onlyRejects(w.call(o.st.copy(), g.m, "itTransitionsTo", x)) ? null : "an event that already has an outcome gets another";
          }
          return after(g, o.st, 'E', g.s, f);
        }), f);
      } else if (k == 'E') {
        step(g, "receives", ph, w.kase("another event").then((o, ff) -> {
          if (o.exc != null && !ISE.equals(o.exc.type)) return "throws " + V.shortName(o.exc.type);
          String c = unchanged(g, o);
          return c == null ? null : "naming an event changes the table by " + c;
        }), f);
      } else step(g, "receives", ph, w.kase("without a state").then(rejected(g)), f);
      // outcomes
      if (k == 'E') {
        V cur = w.mapget(g.inner(), g.e);
        Consumer<Object[]> two = a -> {
          step(g, (String) a[0], ph,
              new World.Case[]{w.kase("the event has no outcome").is(St.isNull(cur)).then(outcome(g, g.e, (V) a[1])),
                  w.kase("the event has an outcome").not(St.isNull(cur)).is(V.app("haskey", "Z", cur.a)).then(rejected(g))}, (V[]) a[2]);
        };
        two.accept(new Object[]{"itTransitionsTo", x, new V[]{x}});
        two.accept(new Object[]{"itEnds", end, V.NONE});
        two.accept(new Object[]{"itDoesNotTransition", noop, V.NONE});
      } else {
        step(g, "itTransitionsTo", ph, w.kase("without an event").then(rejected(g)), x);
        step(g, "itDoesNotTransition", ph, w.kase("without an event").then(rejected(g)));
        if (k == 'M') {
          V empty = w.e.lib.isEmpty(w.st, g.inner());
          step(g, "itEnds", ph, new World.Case[]{w.kase("the state has no mappings").is(empty).not(V.app("haskey", "Z", g.inner(), imm)).is(St.isNull(w.mapget(g.inner(), imm))).then(outcome(g, imm, end)),
              w.kase("the state has mappings").not(empty).then(rejected(g))});
        } else step(g, "itEnds", ph, w.kase("without a state").then(rejected(g)));
      }
      r.use(w.e);
    }
  }
  private void step(Stage g, String op, String ph, World.Case c, V... args) { step(g, op, ph, new World.Case[]{c}, args); }
  private void step(Stage g, String op, String ph, World.Case[] cs, V... args) {
    g.w.cases(op + "() when " + ph, g.w.call(g.w.st.copy(), g.m, op, args), cs);
  }

  // ---- the app service ---------------------------------------------------------------------

  static final String[] NAMES = {"UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED"};
  static final String[] EVENTS = {"start", "complete", "stop", "error"};
  static final Map<String, String> TABLE = Map.of("UNINITIALISED start", "STARTING", "STARTING complete", "STARTED", "STARTING error", "STOPPED",
      "STARTED stop", "STOPPING", "STARTED error", "STOPPED", "STOPPING complete", "STOPPED", "STOPPING error", "STOPPED",
      "STOPPED start", "STARTING", "STOPPED stop", "END");

  final class App {
    World w; V ctx, service, machine, strategy, task;
    final Map<String, V> states = new LinkedHashMap<>();
    V started, ended, cur, end;
    final Map<String, V> events = new HashMap<>();
    /** The lifecycle events as an application would make them; to be made before a state is copied. */
    void prepare() { for (String n : EVENTS) events.put(n, event(w, n)); }

    void find(V from) {
      Map<String, V> all = new TreeMap<>();
      reach(w, from, all);
      for (V v : all.values()) {
        if (v.k != V.K.OBJ) continue;
        if (v.shortType().equals("GenericStateMachine")) machine = v;
        if (v.shortType().equals("TransitionTask")) task = v;
        if (v.shortType().equals("NamedState")) {
          V n = w.obs(w.st, v, "getName");
          if (n != null && n.isStr() && Arrays.asList(NAMES).contains(n.x)) {
            if (states.containsKey(n.x)) throw new World.Undecided("two states named " + n);
            states.put((String) n.x, v);
          }
        }
      }
      if (machine == null) throw new World.Undecided("the machine of the app was not recognised");
      end = w.obs(w.st, machine, "getEndState");
    }
    /** Makes the machine's flags and current state symbolic cells that can be set. */
    void cells() {
      for (String m : List.of("isStarted", "isEnded", "getCurrentState")) {
        for (Engine.Out o : w.call(w.st.copy(), machine, m)) {
          if (o.exc != null) throw new World.Undecided(m + " throws");
        }
      }
      // forget what the flags and the current state are, to see which cells hold them
      St s = w.st.copy();
      Set<String> mut = w.mutableFields();
      for (St.Cell c : new ArrayList<>(s.heap.values())) {
        if (c.f.equals("$val")) s.drop(c.base, c.f);
        else if ((c.base.equals(machine) || parts().contains(c.base)) && mut.contains(V.shortName(p.fieldOwner(c.base.type, c.f)) + "." + c.f)) s.drop(c.base, c.f);
      }
      started = w.obs(s, machine, "isStarted");
      ended = w.obs(s, machine, "isEnded");
      cur = w.obs(s, machine, "getCurrentState");
      for (V v : Arrays.asList(started, ended, cur)) simple &= v != null && v.k == V.K.FLD && v.a[0].k == V.K.OBJ;
    }
    boolean simple = true;
    void put(St s, V cell, V val) { s.put(cell.a[0], cell.op.substring(cell.op.lastIndexOf('.') + 1), val); }
    void phase(St s, String ph) {
      boolean neu = ph.equals("NEW");
      if (!simple) { viaApi(s, ph); return; }
      put(s, started, V.bool(!neu));
      put(s, ended, V.bool(ph.equals("END")));
      put(s, cur, neu ? V.NULL : ph.equals("END") ? end : states.get(ph));
    }
    /** The same through the machine's own interface. */
    private void viaApi(St s, String ph) {
      Set<String> b = w.e.boundary;
      w.e.boundary = new HashSet<>();
      try {
        St q = w.st.copy();
        if (fresh == null) fresh = q;
        q = fresh.copy();
        q.trace.clear();
        q.next[0] = Math.max(q.next[0], s.next[0]);
        if (!ph.equals("NEW")) q = w.normal(w.call(q, machine, "startInState", states.get(ph.equals("END") ? "STOPPED" : ph)), "startInState").st;
        if (ph.equals("END")) q = w.normal(w.call(q, machine, "stop"), "stop").st;
        for (St.Cell c : fresh.heap.values()) {
          V now = q.get(c.base, c.f);
          if (now == null) s.drop(c.base, c.f);
          else if (ours(c.base)) s.put(c.base, c.f, now);
        }
        // with what was made on the way
        Set<V> known = new HashSet<>();
        for (St.Cell c : fresh.heap.values()) known.add(c.base);
        for (St.Cell c : q.heap.values()) if (ours(c.base) || St.fresh(c.base) && !known.contains(c.base)) s.put(c.base, c.f, c.val);
        s.next[0] = Math.max(q.next[0], s.next[0]);
      } finally { w.e.boundary = b; }
    }
    private St fresh;
    private boolean ours(V b) { return b.equals(machine) || b.k == V.K.OBJ && (b.shortType().startsWith("Atomic") || parts().contains(b)); }
    private Set<V> parts;
    /** Objects the machine keeps for its own bookkeeping: neither states, events nor anything with an interface of the library. */
    private Set<V> parts() {
      if (parts != null) return parts;
      parts = new HashSet<>();
      for (St.Cell c : w.st.heap.values()) {
        V v = c.val;
        if (!c.base.equals(machine) || v == null || v.k != V.K.OBJ || v.op.startsWith("S") || !p.inApp(v.type) || v.equals(machine)) continue;
        if (p.classes.get(v.type).interfaces.stream().noneMatch(i -> i.startsWith(World.P))) parts.add(v);
      }
      return parts;
    }
    String nameOf(St s, V state) {
      if (state == null) return null;
      if (state.isNull()) return "none";
      if (state.equals(end)) return "END";
      V n = w.obs(s, state, "getName");
      return n != null && n.isStr() ? (String) n.x : null;
    }
  }
  /** Most of the states of the life cycle are there, but not all. */
  static final class Lacks extends World.Undecided {
    Lacks(String m) { super(m); }
  }
  App service(V exit, Function<World, V> ctx) {
    App a = new App();
    World w = a.w = world();
    w.e.inlineEquals = true;
    a.ctx = ctx.apply(w);
    a.service = exit == null ? w.make("AbstractAppService", a.ctx) : w.make("AbstractAppService", a.ctx, exit);
    a.find(a.service);
    int known = 0;
    for (String n : NAMES) if (a.states.containsKey(n)) known++;
    for (String n : NAMES) if (!a.states.containsKey(n)) {
      String m = "the machine of the app has no state " + n;
      if (known < 3 || a.machine == null || a.machine.k != V.K.OBJ) throw new World.Undecided(m);
      throw new Lacks(m);
    }
    a.cells();
    a.prepare();
    // any number of events wait at any time
    for (St.Cell c : new ArrayList<>(w.st.heap.values())) if (c.f.equals("$list") && Lib.QUEUES.contains(c.base.shortType())) w.st.drop(c.base, c.f);
    w.st.trace.clear();
    return a;
  }
  V ctx(World w) { return V.sym("ctx", type("AppContext")).nn(); }
  V event(World w, String name) {
    V e = w.make("NamedStateEvent", V.str(name));
    return e;
  }
  static final String FIRE = "StateMachine.fire", START = "StateMachine.start", ACT = ChkMisc.ACT;

  // ---- C21 ---------------------------------------------------------------------------------

  void c21() {
    // the utility, on a machine with a default strategy
    App a = new App();
    World w = a.w = world();
    w.e.inlineEquals = true;
    w.e.nonThrowing.add("BiConsumer.accept");
    w.defaultStrategy().machine();
    w.st.assume(St.isNull(w.listener), true);
    w.e.nonThrowing.add(ACT);
    V[] st = new V[5];
    V[] acts = new V[10];
    String[] fac = {"newUnitialisedState", "newStartingState", "newStartedState", "newStoppingState", "newStoppedState"};
    for (int i = 0; i < 5; i++) {
      for (int j = 0; j < 2; j++) acts[2 * i + j] = V.sym("action" + NAMES[i] + j, type("StateAction")).nn();
      Engine.Out o = w.normal(w.callStatic(w.st, UTIL, fac[i], ChkMisc.arr(w, type("StateAction"), acts[2 * i], acts[2 * i + 1])), fac[i]);
      w.st = o.st;
      st[i] = o.val;
      String rule = UTIL + "." + fac[i];
      r.roots.add(rule);
      V n = w.obs(w.st, st[i], "getName");
      if (n != null && n.isStr() && n.x.equals(NAMES[i])) r.ok(rule);
      else r.bad(rule, null, "the state is named " + n, null, null);
    }
    Engine.Out c = w.normal(w.callStatic(w.st, UTIL, "configureAppStateMachine", w.gsm, st[0], st[1], st[2], st[3], st[4]), "configureAppStateMachine");
    w.st = c.st;
    a.machine = w.gsm;
    for (int i = 0; i < 5; i++) a.states.put(NAMES[i], st[i]);
    a.end = w.obs(w.st, w.gsm, "getEndState");
    Map<String, V> all = new TreeMap<>();
    reach(w, w.strategy, all);
    for (V v : all.values()) if (v.k == V.K.OBJ && v.shortType().equals("TransitionTask")) a.task = v;
    a.cells();
    a.prepare();
    w.st.trace.clear();
    table(a, UTIL + ".configureAppStateMachine", acts);
    // the initial state, through start()
    String rule = UTIL + ".configureAppStateMachine [initial state]";
    for (Engine.Out o : w.call(w.st.copy(), a.machine, "start")) {
      r.paths++;
      String err = World.exactly(o, o.st, World.effs(o.st.trace, g -> g.op.endsWith(ACT)), new World.X(ACT, acts[0], null, null), new World.X(ACT, acts[1], null, null));
      V cu = w.obs(o.st, a.machine, "getCurrentState");
      if (err == null && !World.eq(o.st, cu, st[0])) err = "the app starts in " + cu;
      misc.judge(w, rule, o, err);
    }
    events(w);
    r.use(w.e);
    // the machine of an app
    for (V exit : List.of(V.TRUE, V.FALSE)) {
      App s = service(exit, this::ctx);
      if (s.task == null) throw new World.Undecided("the transition task was not recognised");
      s.w.e.boundary.add(FIRE);
      s.w.e.nonThrowing.add(FIRE);
      s.w.e.nonThrowing.add("Subsystem.start");
      s.w.e.nonThrowing.add("Subsystem.stop");
      table(s, "AbstractAppService" + (exit.equals(V.TRUE) ? " (exit mode)" : " (restartable mode)"), null);
      String rs = "AbstractAppService [initial state]";
      St t = s.w.st.copy();
      s.phase(t, "NEW");
      for (Engine.Out o : s.w.call(t, s.machine, "start")) {
        r.paths++;
        V cu = s.w.obs(o.st, s.machine, "getCurrentState");
        misc.judge(s.w, rs, o, o.exc != null ? "the machine of an app fails to start with " + V.shortName(o.exc.type)
            : World.eq(o.st, cu, s.states.get("UNINITIALISED")) ? null : "an app's machine starts in " + cu);
      }
      r.use(s.w.e);
    }
  }
  private void events(World w) {
    String rule = UTIL + " [events]";
    for (String n : EVENTS) {
      String f = "evt" + Character.toUpperCase(n.charAt(0)) + n.substring(1);
      V v = w.st.get(V.sym("static:" + type(UTIL), null), f);
      V nm = v == null ? null : w.obs(w.st, v, "getName");
      if (nm != null && nm.isStr() && nm.x.equals(n)) r.ok(rule);
      else if (nm == null) r.undecided(rule, f + " is not a known constant");
      else r.bad(rule, null, f + " is named " + nm, null, null);
    }
  }
  /** Every state and event, through the machine's own transition code. */
  private void table(App a, String root, V[] acts) {
    World w = a.w;
    r.roots.add(root);
    V other = w.make("NamedStateEvent", V.str("another event"));
    List<String> evs = new ArrayList<>(Arrays.asList(EVENTS));
    evs.add(null);
    for (String from : NAMES) for (String en : evs) {
      V ev = en == null ? other : a.events.get(en);
      St t = w.st.copy();
      t.trace.clear();
      a.phase(t, from);
      String want = TABLE.get(from + " " + en);
      String rule = root + " [" + from + " + " + (en == null ? "any other event" : en) + "]";
      for (Engine.Out o : w.call(t, a.task, "execute", ev, a.machine)) {
        r.paths++;
        String got = a.nameOf(o.st, w.obs(o.st, a.machine, "getCurrentState"));
        V endv = w.obs(o.st, a.machine, "isEnded");
        String err = null;
        if (o.exc != null) err = "throws " + V.shortName(o.exc.type);
        else if (got == null || endv == null) { r.undecided(rule, "the state reached was not recognised"); continue; }
        else if (!got.equals(want == null ? from : want)) err = "leads to " + got + " instead of " + (want == null ? "being ignored" : want);
        else if (Boolean.TRUE.equals(o.st.decide(endv)) != "END".equals(want)) err = "END".equals(want) ? "does not end the app" : "ends the app";
        else {
          List<Eff> un = World.effs(o.st.trace, g -> g.k == Eff.K.CALL && g.op.equals("BiConsumer.accept"));
          if (acts != null && (want == null) != (un.size() == 1)) err = want == null ? "is not reported as unmapped" : "is reported as unmapped";
        }
        if (err == null && acts != null) {
          List<World.X> x = new ArrayList<>();
          int i = want == null ? -1 : Arrays.asList(NAMES).indexOf(want);
          if (i >= 0) for (int j = 0; j < 2; j++) x.add(new World.X(ACT, acts[2 * i + j], ev, a.machine));
          err = World.exactly(o, o.st, World.effs(o.st.trace, g -> g.op.endsWith(ACT)), x);
        }
        if (err == null && acts == null) {
          boolean up = false, down = false;
          for (Eff g : World.all(o.st.trace)) { up |= g.op.endsWith("Subsystem.start"); down |= g.op.endsWith("Subsystem.stop"); }
          if (up && !"STARTING".equals(want)) err = "starts subsystems";
          if (down && !"STOPPING".equals(want)) err = "stops subsystems";
        }
        misc.judge(w, rule, o, err);
      }
    }
  }

  // ---- C22 ---------------------------------------------------------------------------------

  void c22() {
    for (boolean up : new boolean[]{true, false}) {
      String op = up ? "Subsystem.start" : "Subsystem.stop", state = up ? "STARTING" : "STOPPING", verb = up ? "starting" : "stopping";
      for (V exit : List.of(V.TRUE, V.FALSE)) {
        // any list
        App a = service(exit, this::ctx);
        World w = quietFire(a);
        a.phase(w.st, state);
        V subs = V.app("getSubsystems", "java/util/List", a.ctx);
        String rule = verb + " any list of subsystems";
        r.roots.add(rule);
        for (Engine.Out o : w.call(w.st.copy(), a.states.get(state), "onEntry", a.events.get(up ? "start" : "stop"), a.machine)) {
          r.paths++;
          try {
            misc.judge(w, rule, o, anyList(a, o, op, up, subs, rule));
          } catch (World.Undecided e) {
            r.undecided(rule, e.getMessage());
          }
        }
        r.use(w.e);
        // given lists
        for (int n = 0; n <= (r.thorough ? 8 : 5); n++) {
          int k = n;
          V[] ss = new V[n];
          for (int i = 0; i < n; i++) ss[i] = V.sym("subsystem" + i, type("Subsystem")).nn();
          App b = service(exit, x -> {
            V c = x.make("AbstractAppContext", V.sym("appName", "java/lang/String").nn());
            V l = x.e.lib.newKnown(x.st, "java/util/List", Arrays.asList(ss), true);
            return x.callOne(c, "withSubsystems", l);
          });
          World v = quietFire(b);
          b.phase(v.st, state);
          String rl = verb + " " + n + " subsystems";
          r.roots.add(rl);
          for (Engine.Out o : v.call(v.st.copy(), b.states.get(state), "onEntry", b.events.get(up ? "start" : "stop"), b.machine)) {
            r.paths++;
            List<Eff> calls = World.effs(o.st.trace, g -> g.op.endsWith(op));
            String err = null;
            boolean failed = false;
            for (int i = 0; i < calls.size() && err == null; i++) {
              Eff g = calls.get(i);
              if (i >= k) err = "subsystems are touched again at " + g.site;
              else if (failed) err = "another subsystem is touched after a failure, at " + g.site;
              else if (g.op.startsWith("REPEATED") || !ss[up ? i : k - 1 - i].equals(g.recv) || !b.ctx.equals(g.arg(0))) err = "call " + (i + 1) + " is " + World.list(List.of(g)) + " at " + g.site;
              if (g.thrown != null) failed = true;
            }
            if (err == null && !failed && calls.size() < k) err = "only " + calls.size() + " of " + k + " subsystems are touched";
            if (err == null) err = signals(b, o, failed ? calls.get(calls.size() - 1) : null, calls);
            misc.judge(v, rl, o, err);
          }
          r.use(v.e);
        }
      }
    }
    // nothing else touches them
    App a = service(V.sym("exit", "Z"), this::ctx);
    World w = quietFire(a);
    String rule = "no other state touches the subsystems";
    for (String s : NAMES) for (String ph : List.of("onEntry", "onExit")) for (String en : EVENTS) {
      if (s.equals("STARTING") && ph.equals("onEntry") || s.equals("STOPPING") && ph.equals("onEntry")) continue;
      St t = w.st.copy();
      a.phase(t, s);
      for (Engine.Out o : w.call(t, a.states.get(s), ph, a.events.get(en), a.machine)) {
        r.paths++;
        String err = null;
        for (Eff g : World.all(o.st.trace)) {
          if (g.op.startsWith("Subsystem.")) err = g.op + " in " + ph + " of " + s + " at " + g.site;
          if (fires(g) && "complete".equals(nameOf(w, o.st, g.arg(0)))) err = "completion is signalled in " + ph + " of " + s + " at " + g.site;
          if (fires(g) && "error".equals(nameOf(w, o.st, g.arg(0)))) err = "an error is signalled in " + ph + " of " + s + " at " + g.site;
        }
        misc.judge(w, rule, o, err);
      }
    }
    r.use(w.e);
  }
  private World quietFire(App a) {
    World w = a.w;
    w.e.boundary.add(FIRE);
    w.e.nonThrowing.add(FIRE);
    return w;
  }
  static boolean fires(Eff g) { return g.k == Eff.K.CALL && g.op.endsWith(FIRE); }
  String nameOf(World w, St s, V ev) {
    V n = ev == null || ev.isNull() ? null : ev.k == V.K.OBJ ? w.obs(s, ev, "getName") : null;
    return n != null && n.isStr() ? (String) n.x : String.valueOf(n);
  }
  /** Which signals follow the subsystem calls. */
  private String signals(App a, Engine.Out o, Eff failure, List<Eff> calls) {
    List<Eff> f = World.effs(o.st.trace, ChkApp::fires);
    for (Eff g : f) if (!a.machine.equals(g.recv)) return "an event is fired on " + g.recv + " at " + g.site;
    for (Eff g : World.all(o.st.trace)) if (ChkMisc.otherThread(g)) return "work is handed to another thread at " + g.site;
    String want;
    if (failure == null) want = "complete";
    else {
      if (o.exc != null) {
        boolean exception = !ChkMisc.sameExc(o.exc, failure.thrown) || misc.mayBe(o.exc, "java/lang/Exception") || misc.mayBe(o.exc, ChkMisc.RTE);
        if (exception) return "a subsystem's Exception at " + failure.site + " escapes and no error is signalled";
        for (Eff g : f) if ("complete".equals(nameOf(a.w, o.st, g.arg(0)))) return "completion is signalled at " + g.site + " although a subsystem failed";
        return null;
      }
      want = "error";
    }
    if (o.exc != null) return "throws " + V.shortName(o.exc.type);
    if (f.isEmpty()) return failure == null ? "completion is not signalled" : "a subsystem's exception at " + failure.site + " is not signalled as error";
    if (f.size() > 1 || f.get(0).op.startsWith("REPEATED")) return "more than one event is signalled, again at " + f.get(f.size() - 1).site;
    String got = nameOf(a.w, o.st, f.get(0).arg(0));
    if (!want.equals(got)) return "the event signalled at " + f.get(0).site + " is " + got + " instead of " + want;
    int at = -1, last = -1, i = 0;
    for (Eff g : o.st.trace) {
      if (g == f.get(0)) at = i;
      if (g.op.startsWith("Subsystem.") || g.k == Eff.K.LOOP && !World.effs(List.of(g), x -> x.op.startsWith("Subsystem.")).isEmpty()) last = i;
      i++;
    }
    if (last > at) return want + " is signalled at " + f.get(0).site + " before all subsystems have been touched";
    return null;
  }
  private String anyList(App a, Engine.Out o, String op, boolean up, V subs, String rule) {
    List<Each> l = Each.of(a.w.e.lib, o.st, g -> g.op.startsWith("Subsystem."));
    List<Eff> flat = World.effs(o.st.trace, g -> g.op.startsWith("Subsystem."));
    if (l.isEmpty()) {
      if (!flat.isEmpty()) throw new World.Undecided(rule + ": subsystems are touched outside a recognised traversal");
      boolean empty = World.imprecise(o.st);
      for (Map.Entry<String, V> e : o.st.atoms.entrySet()) if (e.getValue().mentions(subs)) empty = true;
      for (String k : o.st.ivl.keySet()) if (k.contains("getSubsystems")) empty = true;
      if (!empty) return "no subsystem is touched";
      return signals(a, o, null, flat);
    }
    if (l.size() > 1) return "the subsystems are traversed again at " + l.get(1).loop.site;
    Each e = l.get(0);
    if (e.base == null) throw new World.Undecided(rule + ": the traversal of the subsystems was not recognised");
    V b = e.base;
    V copy = b.k == V.K.OBJ ? o.st.get(b, "$copyOf") : null;
    if (copy != null) b = copy.is("copyOf") ? copy.a[0] : copy;
    if (!b.equals(subs)) return "the traversal at " + e.loop.site + " is over " + b;
    if (!(up ? "fwd" : "rev").equals(e.dir)) return "the subsystems are traversed in " + (e.dir.equals("fwd") ? "list" : e.dir.equals("rev") ? "reverse" : "no fixed") + " order at " + e.loop.site;
    for (int i = 0; i < e.iters.size(); i++) {
      List<Eff> c = e.calls.get(i);
      if (c.isEmpty()) {
        if (Boolean.TRUE.equals(e.iters.get(i).end.decideNull(e.elems.get(i)))) continue;
        return "a subsystem is skipped at " + e.loop.site;
      }
      if (c.size() > 1) return "a subsystem is touched more than once, at " + c.get(1).site;
      Eff g = c.get(0);
      if (!g.op.equals(op) || !e.elems.get(i).equals(g.recv) || !a.ctx.equals(g.arg(0))) return "a subsystem is touched by " + World.list(c) + " at " + g.site;
      if (g.thrown != null) return "after a failure the next subsystem is touched, at " + g.site;
      for (Eff h : World.effs(e.iters.get(i).effs, ChkApp::fires)) return "an event is signalled before all subsystems have been touched, at " + h.site;
    }
    Eff failure = null;
    for (Eff g : e.after) if (g.op.equals(op)) {
      if (failure != null) return "another subsystem is touched after a failure, at " + g.site;
      if (g.thrown == null) return "a subsystem is touched once more at " + g.site;
      if (!a.ctx.equals(g.arg(0)) || e.lastElem != null && !e.lastElem.equals(g.recv)) return "a subsystem is touched by " + World.list(List.of(g)) + " at " + g.site;
      failure = g;
    }
    if (failure == null && !e.exhausted) return "the traversal at " + e.loop.site + " stops before the last subsystem";
    return signals(a, o, failure, flat);
  }

  // ---- C23 ---------------------------------------------------------------------------------

  void c23() {
    Set<String> latches = new HashSet<>();
    // built with the mode, or without: documented as exit mode
    for (V exit : Arrays.asList(V.TRUE, V.FALSE, null)) {
      boolean ex = !V.FALSE.equals(exit);
      String mode = exit == null ? " in the default mode" : ex ? " in exit mode" : " in restartable mode";
      App a = service(exit, this::ctx);
      World w = a.w;
      w.e.boundary.add(FIRE);
      w.e.boundary.add(START);
      w.e.boundary.add("StateMachine.stop");
      w.e.nonThrowing.add(FIRE);
      Predicate<Eff> q = g -> fires(g) || g.op.endsWith(START) || g.op.endsWith("CountDownLatch.await") || ChkMisc.otherThread(g) || g.op.endsWith("StateMachine.stop")
          || g.op.endsWith("Subsystem.start") || g.op.endsWith("Subsystem.stop") || g.op.endsWith("CountDownLatch.countDown");
      Set<String> phases = new LinkedHashSet<>(Arrays.asList(NAMES));
      phases.add("NEW");
      phases.add("END");
      List<V> waits = new ArrayList<>();
      for (String ph : phases) {
        // start
        St t = w.st.copy();
        a.phase(t, ph);
        String rule = "start()" + mode + " when " + (ph.equals("NEW") ? "never started" : ph);
        r.roots.add(rule);
        if (ph.equals("NEW")) {
          for (String then : phases) {
            if (then.equals("NEW")) continue;
            w.e.after.put(START, s -> a.phase(s, "UNINITIALISED"));
            w.e.after.put("CountDownLatch.await", s -> a.phase(s, then));
            for (Engine.Out o : w.call(t.copy(), a.service, "start")) {
              r.paths++;
              misc.judge(w, rule, o, firstStart(a, o, World.effs(o.st.trace, q), then, ex, waits));
            }
          }
          w.e.after.clear();
        } else {
          for (Engine.Out o : w.call(t.copy(), a.service, "start")) {
            r.paths++;
            boolean ok = !ex && ph.equals("STOPPED");
            misc.judge(w, rule, o, ok ? signalled(a, o, q, "start") : refused(o, q));
          }
        }
        // stop
        rule = "stop()" + mode + " when " + (ph.equals("NEW") ? "never started" : ph);
        r.roots.add(rule);
        for (Engine.Out o : w.call(t.copy(), a.service, "stop")) {
          r.paths++;
          String err;
          if (ph.equals("STARTED") || !ex && ph.equals("STOPPED")) err = signalled(a, o, q, "stop");
          else if (ph.equals("STOPPED")) err = signalled(a, o, q, null);
          else err = refused(o, q);
          misc.judge(w, rule, o, err);
        }
        // error
        rule = "error()" + mode + " when " + (ph.equals("NEW") ? "never started" : ph);
        for (Engine.Out o : w.call(t.copy(), a.service, "error", V.sym("exception", "java/lang/Exception"))) {
          r.paths++;
          misc.judge(w, rule, o, signalled(a, o, q, "error"));
        }
      }
      // releasing the thread in start()
      String rule = "the thread in start() is released" + mode;
      r.roots.add(rule);
      V latch = null;
      for (V v : waits) { if (latch != null && !latch.equals(v)) latch = null; else latch = v; }
      if (latch == null) { r.undecided(rule, "what start() waits for was not recognised"); continue; }
      V count = w.st.get(latch, "$ctor");
      if (count != null && count.a.length == 1 && V.num(1).equals(count.a[0])) r.ok(rule + " [one count]");
      else if (count != null && count.a.length == 1 && count.a[0].isInt() && count.a[0].intVal() < 1) r.bad(rule + " [one count]", null, "the latch start() waits for is open from the beginning: " + count, null, null);
      else if (count == null) r.undecided(rule + " [one count]", "the count of the latch is unknown");
      long need = count != null && count.a.length == 1 && count.a[0].isInt() ? count.a[0].intVal() : 1;
      long onEntry = counts(a, latch, "STOPPED", "onEntry", "complete", rule), onErr = counts(a, latch, "STOPPED", "onEntry", "error", rule);
      long onStop = counts(a, latch, "STOPPED", "onExit", "stop", rule), onStart = counts(a, latch, "STOPPED", "onExit", "start", rule);
      boolean entryFires = true, entryFiresAny = false;
      for (String en : List.of("complete", "error")) {
        St t = w.st.copy();
        a.phase(t, "STOPPED");
        for (Engine.Out o : w.call(t, a.states.get("STOPPED"), "onEntry", a.events.get(en), a.machine)) {
          boolean f = false;
          for (Eff g : World.all(o.st.trace)) if (fires(g)) {
            if ("stop".equals(nameOf(w, o.st, g.arg(0)))) f = true;
            else r.bad(rule, null, "entering STOPPED signals " + nameOf(w, o.st, g.arg(0)) + " at " + g.site, o.st, o.exc);
          }
          entryFires &= f;
          entryFiresAny |= f;
        }
      }
      if (ex) {
        if (Math.min(onEntry, onErr) >= need || entryFires && onStop >= need || entryFires && Math.min(onEntry, onErr) + onStop >= need) r.ok(rule);
        else r.bad(rule, null, "reaching STOPPED counts down " + Math.min(onEntry, onErr) + " times of " + need, null, null);
      } else {
        if (onEntry > 0 || onErr > 0) r.bad(rule, null, "the thread is released on entering STOPPED although the app can be restarted", null, null);
        else if (entryFiresAny) r.bad(rule, null, "entering STOPPED signals stop although the app can be restarted", null, null);
        else if (onStart > 0) r.bad(rule, null, "the thread is released when the app is restarted", null, null);
        else if (onStop >= need) r.ok(rule);
        else r.bad(rule, null, "a further stop does not release the thread", null, null);
      }
      for (String s : NAMES) for (String ph : List.of("onEntry", "onExit")) for (String en : EVENTS) {
        if (s.equals("STOPPED")) continue;
        if (counts(a, latch, s, ph, en, rule) > 0) r.bad(rule + " [not earlier]", null, "the thread in start() is released in " + ph + " of " + s, null, null);
        else r.ok(rule + " [not earlier]");
      }
      r.use(w.e);
    }
  }
  /** The least number of count-downs on any normal path. */
  private long counts(App a, V latch, String state, String ph, String en, String rule) {
    St t = a.w.st.copy();
    a.phase(t, state);
    long min = Long.MAX_VALUE, max = 0;
    boolean may = !state.equals("STOPPED");
    for (String op : List.of("Subsystem.start", "Subsystem.stop")) if (may) a.w.e.nonThrowing.remove(op); else a.w.e.nonThrowing.add(op);
    for (Engine.Out o : a.w.call(t, a.states.get(state), ph, a.events.get(en), a.machine)) {
      r.paths++;
      long n = 0;
      boolean already = false; // released before
      for (Eff g : World.effs(o.st.trace, x -> x.op.endsWith("CountDownLatch.getCount")))
        already |= latch.equals(g.recv) && g.res != null && (Boolean.TRUE.equals(o.st.decideCmp("<=", g.res, V.lng(0))) || Boolean.FALSE.equals(o.st.decideCmp(">", g.res, V.lng(0))));
      if (already) continue;
      for (Eff g : World.effs(o.st.trace, x -> x.op.endsWith("CountDownLatch.countDown"))) if (latch.equals(g.recv)) n++;
      min = Math.min(min, n);
      max = Math.max(max, n);
    }
    if (min == Long.MAX_VALUE) min = 0;
    return state.equals("STOPPED") && (ph.equals("onEntry") || en.equals("stop")) ? min == 0 && max > 0 && ph.equals("onEntry") ? max : min : max;
  }
  private String refused(Engine.Out o, Predicate<Eff> q) {
    List<Eff> l = World.effs(o.st.trace, q);
    if (!l.isEmpty()) return "an invalid call has the effect " + World.list(l.subList(0, 1)) + " at " + l.get(0).site;
    if (o.exc == null) return "an invalid call is accepted";
    return ISE.equals(o.exc.type) ? null : "an invalid call fails with " + V.shortName(o.exc.type);
  }
  private String signalled(App a, Engine.Out o, Predicate<Eff> q, String ev) {
    List<Eff> l = World.effs(o.st.trace, q);
    if (ev == null) {
      if (!l.isEmpty()) return "unexpected " + World.list(l) + " at " + l.get(0).site;
    } else {
      if (l.isEmpty()) return o.exc != null ? "a valid call fails with " + V.shortName(o.exc.type) : "nothing is signalled";
      if (!fires(l.get(0)) || !a.machine.equals(l.get(0).recv) || !ev.equals(nameOf(a.w, o.st, l.get(0).arg(0)))) return "the effect is " + World.list(l.subList(0, 1)) + " at " + l.get(0).site + " instead of signalling " + ev;
      if (l.size() > 1 || l.get(0).op.startsWith("REPEATED")) return "a further effect is " + World.list(l.subList(l.size() - 1, l.size())) + " at " + l.get(l.size() - 1).site;
    }
    return o.exc == null ? null : "a valid call fails with " + V.shortName(o.exc.type);
  }
  private String firstStart(App a, Engine.Out o, List<Eff> l, String then, boolean ex, List<V> waits) {
    if (l.isEmpty() || !l.get(0).op.equals(START) || !a.machine.equals(l.get(0).recv)) return l.isEmpty() ? "the machine is not started" : "the first effect is " + World.list(l.subList(0, 1)) + " at " + l.get(0).site;
    if (l.get(0).thrown != null) {
      if (l.size() > 1) return "after the machine failed to start: " + World.list(l.subList(1, l.size())) + " at " + l.get(1).site;
      return o.exc == null ? "a failure to start the machine is swallowed" : null;
    }
    if (l.size() < 2 || !fires(l.get(1)) || !a.machine.equals(l.get(1).recv) || !"start".equals(nameOf(a.w, o.st, l.get(1).arg(0))))
      return "the app is not asked to start" + (l.size() < 2 ? "" : " but " + World.list(l.subList(1, 2)) + " at " + l.get(1).site);
    if (l.size() < 3 || !l.get(2).op.endsWith("CountDownLatch.await")) return "start() does not wait" + (l.size() < 3 ? "" : " but " + World.list(l.subList(2, 3)) + " at " + l.get(2).site);
    Eff wait = l.get(2);
    waits.add(wait.recv);
    if (!wait.op.startsWith("REPEATED") && wait.thrown == null && !wait.args.isEmpty() && (wait.res == null || !Boolean.TRUE.equals(o.st.decide(wait.res)))) return "start() stops waiting after a time, at " + wait.site;
    List<Eff> rest = l.subList(3, l.size());
    if (wait.thrown == null) {
      if (!rest.isEmpty()) return "when the app has finished: " + World.list(rest) + " at " + rest.get(0).site;
      return o.exc == null ? null : "start() ends with " + V.shortName(o.exc.type) + " although the app finished";
    }
    // interrupted
    boolean again = !rest.isEmpty() && rest.get(0).op.endsWith("CountDownLatch.await");
    if (again) return then.equals("STARTED") ? "an interrupt is ignored at " + rest.get(0).site : null;
    List<String> fired = new ArrayList<>();
    for (Eff g : rest) fired.add(fires(g) ? nameOf(a.w, o.st, g.arg(0)) : g.op);
    switch (then) {
      case "STARTED":
        if (!fired.equals(List.of("stop"))) return "an interrupt of a started app leads to " + fired + " instead of stop";
        return o.exc == null ? null : "an interrupt of a started app ends start() with " + V.shortName(o.exc.type);
      case "END":
        if (!fired.isEmpty()) return "an interrupt of an app that has ended leads to " + fired;
        return o.exc == null ? null : "an interrupt of an app that has ended ends start() with " + V.shortName(o.exc.type);
      case "STOPPED":
        for (String f : fired) if (!f.equals("stop")) return "an interrupt of a stopped app leads to " + fired;
        return o.exc == null ? null : "an interrupt of a stopped app ends start() with " + V.shortName(o.exc.type);
      default:
        for (String f : fired) if (!f.equals("stop")) return "an interrupt leads to " + fired;
        return null;
    }
  }
}
