package sa;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Rules about the machine itself: C01-C06, C20, C26. */
final class ChkMachine {
  final Prog p; final Rep r; final Engine base;
  ChkMachine(Prog p, Rep r, Engine b) { this.p = p; this.r = r; base = b; }

  static final String BEGIN = "StateMachineListener.onStateChangeBegin", END = "StateMachineListener.onStateChangeEnd";
  static final String ENTRY = "State.onEntry", EXIT = "State.onExit", UNMAPPED = "BiConsumer.accept";

  static boolean trans(Eff f) { return f.k == Eff.K.CALL && World.TRANSITION_OPS.contains(f.op); }

  // ---- processing one event (C01, C02, C03) ------------------------------------------------

  static final class Exec {
    World w; List<Engine.Out> outs; V to, inner, noop, end, imm, lis;
    V toMap, toImm;
  }
  Exec exec() { return exec(x -> { }); }
  Exec exec(java.util.function.Consumer<Exec> before) {
    Exec x = new Exec();
    World w = x.w = new World(p, r, base).defaultStrategy().machine().configured().havoc();
    V task = w.field(w.st, w.strategy, v -> v.k == V.K.OBJ && "TransitionTask".equals(v.shortType()));
    if (task == null) throw new Prog.Missing("the strategy's TransitionTask");
    if (w.map == null) throw new World.Undecided("the machine's transition table was not recognised");
    w.running();
    w.st.assume(St.isNull(w.mapget(w.map, w.cur)), false);
    w.warm(t -> w.call(t, task, "execute", w.earlier(), w.gsm));
    if (w.warmed) w.running();
    w.event = w.sym("event", "StateEvent").nn();
    x.noop = w.obs(w.st, w.gsm, "getNoopState");
    x.end = w.obs(w.st, w.gsm, "getEndState");
    x.imm = w.obs(w.st, w.gsm, "getImmediateEvent");
    V inner = w.mapget(w.map, w.cur);
    w.st.assume(St.isNull(inner), false);
    x.inner = inner;
    x.to = w.mapget(inner, w.event);
    // a configured outcome is not the same object as, or equal to, two reserved states
    x.toMap = w.mapget(w.map, x.to);
    x.toImm = w.mapget(x.toMap, x.imm);
    x.lis = listener(w);
    r.assumptions.add("the current state of a running machine has an entry in the transition table (checked for configuration and startInState by C05 and C15)");
    r.assumptions.add("the reserved no-op and end states are stored as the machine's own objects (checked by C15)");
    before.accept(x);
    x.outs = w.call(w.st.copy(), task, "execute", w.event, w.gsm);
    return x;
  }
  /** Is this an exception no code of the user has thrown? */
  static boolean own(Engine.Out o) {
    if (o.exc.k != V.K.OBJ || o.st.notes.stream().anyMatch(n -> n.startsWith("deref "))) return false;
    for (Eff g : World.all(o.st.trace)) if (g.thrown != null && (g.thrown.equals(o.exc) || ChkMisc.sameExc(o.exc, g.thrown))) return false;
    return true;
  }
  /** Continues a state with what a nested call leaves behind; the call must have one normal outcome. */
  static void nest(World w, St s, java.util.function.Function<St, List<Engine.Out>> op) {
    List<Engine.Out> outs = op.apply(s.copy());
    Engine.Out one = null;
    HashMap<String, Boolean> facts = null;
    HashMap<String, long[]> ivl = null;
    for (Engine.Out o : outs) {
      if (o.exc != null) continue;
      if (one == null) { one = o; facts = new HashMap<>(o.st.facts); ivl = new HashMap<>(o.st.ivl); continue; }
      if (!leaves(one.st, o.st)) { s.note("nested call"); continue; }
      // the ways it can go leave the same behind: what is known is what holds after all of them
      facts.entrySet().retainAll(o.st.facts.entrySet());
      ivl.entrySet().removeIf(e -> !Arrays.equals(e.getValue(), o.st.ivl.get(e.getKey())));
      s.notes.addAll(o.st.notes);
      one.st.next[0] = Math.max(one.st.next[0], o.st.next[0]);
    }
    if (one == null) { s.note("nested call"); return; }
    s.heap = one.st.heap;
    s.facts = facts;
    s.atoms = one.st.atoms;
    s.ivl = ivl;
    s.next = one.st.next;
    s.notes.addAll(one.st.notes);
  }
  private static boolean leaves(St a, St b) {
    if (!a.heap.keySet().equals(b.heap.keySet())) return false;
    for (Map.Entry<String, St.Cell> e : a.heap.entrySet()) {
      V x = e.getValue().val, y = b.heap.get(e.getKey()).val;
      if (!Objects.equals(x == null ? null : x.key, y == null ? null : y.key)) return false;
    }
    return true;
  }
  /** The cell a listener set on the machine is kept in. */
  V listener(World w) {
    St s = w.st.copy();
    V l = w.sym("newListener", "StateMachineListener");
    for (Engine.Out o : w.call(s, w.gsm, "setStateMachineListener", l)) {
      for (St.Cell c : o.st.heap.values()) {
        if (l.equals(c.val)) {
          V now = w.st.get(c.base, c.f);
          return now != null ? now : V.fld(c.base, c.f, c.f.equals("$val") ? null : l.type, 0);
        }
      }
    }
    throw new World.Undecided("setStateMachineListener stores nothing");
  }

  World.Case caseUnmapped(Exec x) { return x.w.kase("event not mapped").is(St.isNull(x.to)); }
  World.Case caseNoop(Exec x, String n) {
    return x.w.kase("configured not to transition" + n).not(St.isNull(x.to)).is(St.same(x.noop, x.to)).not(St.same(x.end, x.to)).not(St.equalsTo(x.end, x.to));
  }
  World.Case caseTo(Exec x, String n) {
    return x.w.kase(n).not(St.isNull(x.to)).not(St.same(x.noop, x.to)).not(St.equalsTo(x.noop, x.to));
  }
  World.Case notEnd(Exec x, World.Case c) { return c.not(St.same(x.end, x.to)).not(St.equalsTo(x.end, x.to)); }

  boolean is(World w, St facts, V v, V want) { return World.eq(facts, v, want); }
  V current(World w, St snap) { return w.obs(snap, w.gsm, "getCurrentState"); }

  void c01() {
    Exec x = exec();
    World w = x.w;
    String root = "TransitionTask.execute";
    w.cases(root, x.outs,
        caseUnmapped(x).then((o, f) -> {
          String e = World.exactly(o, f, World.effs(o.st.trace, ChkMachine::trans), new World.X(UNMAPPED, w.handler, w.event, w.gsm));
          if (e != null) return e;
          if (!is(w, f, current(w, o.st), w.cur)) return "the current state changes to " + current(w, o.st);
          return Boolean.TRUE.equals(w.obsBool(o.st, f, w.gsm, "isEnded")) ? "the machine ends" : null;
        }),
        caseNoop(x, "").then((o, f) -> {
          for (Eff g : World.effs(o.st.trace, ChkMachine::trans))
            if (!g.op.endsWith(BEGIN) && !g.op.endsWith(END)) return "runs " + g + " although the event does not transition";
          if (!is(w, f, current(w, o.st), w.cur)) return "the current state changes to " + current(w, o.st);
          return Boolean.TRUE.equals(w.obsBool(o.st, f, w.gsm, "isEnded")) ? "the machine ends" : null;
        }),
        caseTo(x, "configured to go to a state").then((o, f) -> {
          List<Eff> l = World.effs(o.st.trace, g -> trans(g) && !g.op.startsWith("StateMachineListener"));
          for (Eff g : l) {
            if (g.op.endsWith(UNMAPPED)) return "a mapped event is handed to the unmapped-event handler at " + g.site;
            V want = g.op.endsWith(EXIT) ? w.cur : x.to;
            if (!is(w, f, g.recv, want)) return g.op + " of " + g.recv + " instead of " + want + " at " + g.site;
            if (g.op.endsWith(ENTRY) && !is(w, f, current(w, g.snap), x.to))
              return "the current state is " + current(w, g.snap) + " instead of " + x.to + " when it is entered at " + g.site;
          }
          if (o.exc == null) {
            V c = current(w, o.st);
            Boolean ended = w.obsBool(o.st, f, w.gsm, "isEnded");
            if (ended == null) {
              // ends exactly when the target is the end state
              if (!is(w, f, c, x.to)) throw new World.Undecided("isEnded is not decided at the end");
              return null;
            }
            if (!is(w, f, c, ended ? x.end : x.to) && !(ended && c != null && Boolean.TRUE.equals(f.decide(St.equalsTo(c, x.end))))) return "ends with current state " + c + " instead of " + (ended ? x.end : x.to);
            boolean entered = false;
            for (Eff g : l) if (g.op.equals(ENTRY)) entered = true;
            if (!entered && !is(w, f, c, x.to)) return "the target is never entered";
          }
          return null;
        }));
    // the handler is a user's: it may stop the machine
    Exec y = exec(q -> q.w.e.after.put(UNMAPPED, t -> nest(q.w, t, u -> q.w.call(u, q.w.gsm, "stop"))));
    y.w.cases(root, y.outs, y.w.kase("event not mapped, the handler stops the machine").is(St.isNull(y.to)).then((o, f) -> {
      String e = World.exactly(o, f, World.effs(o.st.trace, ChkMachine::trans), new World.X(UNMAPPED, y.w.handler, y.w.event, y.w.gsm));
      if (e != null || o.exc != null) return e;
      return ended(y.w, o.st, f) ? null : "the machine is no longer ended";
    }));
    // the processing lookup and the configuration write the same cell
    configAgrees(x);
  }

  /** The outcome a machine processes is the one that was configured last for exactly that state and event. */
  private void configAgrees(Exec x) {
    tables();
    String rule = "configuration reaches processing";
    r.roots.add("initialSate/when/receives/itTransitionsTo -> execute");
    World w = new World(p, r, base).defaultStrategy().machine();
    V s1 = w.sym("s1", "State").nn(), s2 = w.sym("s2", "State").nn(), ev = w.sym("ev1", "StateEvent").nn(), ev2 = w.sym("ev2", "StateEvent").nn(), s3 = w.sym("s3", "State").nn();
    w.st.assume(St.equalsTo(s1, s2), false);
    w.st.assume(St.equalsTo(s1, s3), false);
    w.st.assume(St.equalsTo(s2, s3), false);
    w.st.assume(St.equalsTo(ev, ev2), false);
    V m = w.gsm;
    for (V v : List.of(s1, s2, s3, ev, ev2)) w.distinct(v);
    w.callOne(m, "initialSate", s1);
    w.callOne(m, "receives", ev);
    w.callOne(m, "itTransitionsTo", s2);
    w.callOne(m, "when", s1);
    w.callOne(m, "receives", ev2);
    w.callOne(m, "itDoesNotTransition");
    w.callOne(m, "when", s2);
    w.callOne(m, "receives", ev);
    w.callOne(m, "itTransitionsTo", s3);
    w.callOne(m, "when", s2);
    w.callOne(m, "receives", ev2);
    w.callOne(m, "itEnds");
    V task = w.field(w.st, w.strategy, v -> v.k == V.K.OBJ && "TransitionTask".equals(v.shortType()));
    V end = w.obs(w.st, m, "getEndState"), noop = w.obs(w.st, m, "getNoopState");
    V[][] q = {{s1, ev, s2}, {s1, ev2, noop}, {s2, ev, s3}, {s2, ev2, end}};
    for (V[] t : q) {
      St s = w.st.copy();
      s.trace.clear();
      w.e.nonThrowing.addAll(World.TRANSITION_OPS);
      St keep = null;
      for (Engine.Out o : w.call(s, m, "startInState", t[0])) if (o.exc == null) keep = o.st;
      if (keep == null) { r.undecided(rule, "startInState never succeeds"); continue; }
      w.e.nonThrowing.add(UNMAPPED);
      List<Engine.Out> outs = w.call(keep, task, "execute", t[1], m);
      for (Engine.Out o : outs) {
        if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
        V c = w.obs(o.st, m, "getCurrentState");
        V want = t[2].equals(noop) ? t[0] : t[2].equals(end) ? end : t[2];
        // s3 has no configuration of its own: the machine ends in it
        if (t[2].equals(s3)) want = end;
        boolean unm = World.effs(o.st.trace, g -> g.op.equals(UNMAPPED)).size() > 0;
        List<Eff> entered = World.effs(o.st.trace, g -> g.op.equals(ENTRY));
        if (unm) r.bad(rule, null, "event " + t[1] + " configured in state " + t[0] + " is treated as unmapped", o.st, o.exc);
        else if (!World.eq(o.st, c, want)) r.bad(rule, null, "event " + t[1] + " in state " + t[0] + " leads to " + c + " instead of " + want, o.st, o.exc);
        else if (t[2].equals(s3) && (entered.size() != 1 || !World.eq(o.st, entered.get(0).recv, s3)))
          r.bad(rule, null, "event " + t[1] + " in state " + t[0] + " enters " + World.list(entered) + " instead of " + s3, o.st, o.exc);
        else r.ok(rule);
      }
    }
    r.use(w.e);
  }

  private static final Set<String> BY_EQUALS = Set.of("HashMap", "LinkedHashMap", "ConcurrentHashMap", "Hashtable");
  /** The tables the configuration fills find an entry for every state and event equal to the one configured, and keep it. */
  private void tables() {
    String rule = "the tables of outcomes are looked up by equality and keep what was configured";
    Conf c = new Conf().full();
    World w = c.w;
    Set<V> keys = new HashSet<>(List.of(c.s));
    keys.addAll(List.of(c.ev));
    boolean any = false;
    for (St.Cell l : new ArrayList<>(w.st.heap.values())) {
      if (!l.f.equals("$map")) continue;
      boolean table = false;
      for (int i = 0; i < l.val.a.length; i += 2) table |= keys.contains(l.val.a[i]);
      if (!table) continue;
      any = true;
      String t = l.base.shortType();
      if (BY_EQUALS.contains(t) || t != null && (t.startsWith("Collections$") || t.startsWith("ImmutableCollections$"))) r.ok(rule);
      else if ("IdentityHashMap".equals(t)) r.bad(rule, null, "the table made at " + l.base.x + " compares by identity: an equal state or event other than the object configured is not found", w.st, null);
      else if ("WeakHashMap".equals(t)) r.bad(rule, null, "the table made at " + l.base.x + " forgets an outcome when the configured object is collected, although an equal one can still be used", w.st, null);
      else r.undecided(rule, "table of type " + t + " made at " + l.base.x);
    }
    if (!any) r.undecided(rule, "no table was recognised");
    r.use(w.e);
  }

  void c02() {
    Exec x = exec();
    World w = x.w;
    String root = "TransitionTask.execute";
    V cur = w.cur, ev = w.event, m = w.gsm;
    List<World.Case> cs = new ArrayList<>();
    for (int li = 0; li < 2; li++) {
      boolean lis = li == 1;
      String n = lis ? ", listener set" : ", no listener";
      World.Case a = caseNoop(x, n), b = caseTo(x, "transition" + n);
      for (World.Case c : List.of(a, b)) if (lis) c.not(St.isNull(x.lis)); else c.is(St.isNull(x.lis));
      a.then((o, f) -> {
        List<World.X> want = new ArrayList<>();
        if (lis) {
          want.add(new World.X(BEGIN, x.lis, cur, ev, x.noop));
          want.add(new World.X(END, x.lis, cur, ev, x.noop));
        }
        return World.exactly(o, f, World.effs(o.st.trace, ChkMachine::trans), want);
      });
      b.then((o, f) -> {
        List<World.X> want = new ArrayList<>();
        if (lis) want.add(new World.X(BEGIN, x.lis, cur, ev, x.to));
        want.add(new World.X(EXIT, cur, ev, m));
        want.add(new World.X(ENTRY, x.to, ev, m));
        if (lis) want.add(new World.X(END, x.lis, cur, ev, x.to));
        List<Eff> got = World.effs(o.st.trace, ChkMachine::trans);
        String e = World.exactly(o, f, got, want);
        if (e != null) return e;
        for (Eff g : got) {
          V c = current(w, g.snap);
          V exp = g.op.equals(BEGIN) || g.op.equals(EXIT) ? cur : x.to;
          if (!World.eq(f, c, exp)) return "the current state is " + c + " instead of " + exp + " at " + g.op + " (" + g.site + ")";
        }
        return null;
      });
      cs.add(a);
      cs.add(b);
    }
    w.cases(root, x.outs, cs.toArray(new World.Case[0]));
    stoppedOnEntry();
  }

  /** The entry action of the target stops the machine: the announcement still names the transition that was made. */
  private void stoppedOnEntry() {
    Exec x = exec(q -> {
      World v = q.w;
      v.st.assume(St.equalsTo(q.to, q.end), false);
      v.st.assume(St.same(q.to, q.end), false);
      v.e.after.put(ENTRY, s -> nest(v, s, t -> v.call(t, v.gsm, "stop")));
    });
    World w = x.w;
    List<World.Case> cs = new ArrayList<>();
    for (int li = 0; li < 2; li++) {
      boolean lis = li == 1;
      World.Case b = caseTo(x, "transition, the entry action stops the machine" + (lis ? ", listener set" : ", no listener"));
      if (lis) b.not(St.isNull(x.lis)); else b.is(St.isNull(x.lis));
      b.then((o, f) -> {
        List<World.X> want = new ArrayList<>();
        if (lis) want.add(new World.X(BEGIN, x.lis, w.cur, w.event, x.to));
        want.add(new World.X(EXIT, w.cur, w.event, w.gsm));
        want.add(new World.X(ENTRY, x.to, w.event, w.gsm));
        if (lis) want.add(new World.X(END, x.lis, w.cur, w.event, x.to));
        String e = World.exactly(o, f, World.effs(o.st.trace, ChkMachine::trans), want);
        if (e != null || o.exc != null) return e;
        return ended(w, o.st, f) ? null : "the machine is no longer ended";
      });
      cs.add(b);
    }
    w.cases("TransitionTask.execute", x.outs, cs.toArray(new World.Case[0]));
  }

  void c03() {
    Exec x = exec();
    World w = x.w;
    String root = "TransitionTask.execute";
    World.Expect stays = (o, f) -> ended(w, o.st, f) ? "the machine ends" : o.exc != null && own(o) ? "the library itself throws " + V.shortName(o.exc.type) : null;
    World.Expect endsAfter = (o, f) -> {
      for (Eff g : World.effs(o.st.trace, ChkMachine::trans))
        if (ended(w, g.snap, f)) return "the machine has ended before " + g.op + " at " + g.site;
      if (o.exc != null && own(o)) return "the library itself throws " + V.shortName(o.exc.type);
      if (o.exc == null && !ended(w, o.st, f)) return "the machine does not end";
      if (o.exc == null && !World.eq(f, current(w, o.st), x.end)) return "the machine ends with current state " + current(w, o.st);
      return null;
    };
    World.Case end = caseTo(x, "event mapped to end").is(St.same(x.end, x.to)).then((o, f) ->
        o.exc != null ? null : !ended(w, o.st, f) ? "the machine does not end"
            : !World.eq(f, current(w, o.st), x.end) ? "the machine ends with current state " + current(w, o.st) : null);
    World.Case unconf = notEnd(x, caseTo(x, "target not configured")).is(St.isNull(x.toMap)).then(endsAfter);
    World.Case imm = notEnd(x, caseTo(x, "target configured to end")).not(St.isNull(x.toMap)).is(St.same(x.end, x.toImm)).then(endsAfter);
    World.Case other = notEnd(x, caseTo(x, "ordinary target")).not(St.isNull(x.toMap)).not(St.same(x.end, x.toImm))
        .not(St.equalsTo(x.end, x.toImm)).then(stays);
    w.cases(root, x.outs, caseUnmapped(x).then(stays), caseNoop(x, "").then(stays), end, unconf, imm, other);

    // the initial state
    Start s = start("start");
    World v = s.w;
    V im = v.mapget(v.mapget(v.map, s.init), v.obs(v.st, v.gsm, "getImmediateEvent"));
    V e = v.obs(v.st, v.gsm, "getEndState");
    World.Expect sEnds = (o, f) -> {
      for (Eff g : World.effs(o.st.trace, ChkMachine::trans))
        if (ended(v, g.snap, f)) return "the machine has ended before " + g.op + " at " + g.site;
      if (o.exc == null && !ended(v, o.st, f)) return "the machine does not end";
      return null;
    };
    V started0 = v.obs(v.st, v.gsm, "isStarted");
    v.cases("start", s.outs,
        v.kase("initial state configured to end").not(started0).not(St.isNull(s.init)).not(St.isNull(v.mapget(v.map, s.init))).is(St.same(e, im)).then(sEnds),
        v.kase("initial state with transitions").not(started0).not(St.isNull(s.init)).not(St.isNull(v.mapget(v.map, s.init))).not(St.same(e, im)).not(St.equalsTo(e, im))
            .then((o, f) -> o.exc == null && ended(v, o.st, f) ? "the machine ends" : null));
    Start t = start("startInState");
    World u = t.w;
    u.cases("startInState", t.outs, u.kase("any state").not(u.obs(u.st, u.gsm, "isStarted"))
        .then((o, f) -> o.exc == null && ended(u, o.st, f) ? "the machine ends" : null));
    // an explicit stop ends it
    World k = new World(p, r, base).defaultStrategy().machine().configured().havoc().running();
    V ke = k.obs(k.st, k.gsm, "getEndState");
    k.cases("stop", k.call(k.st.copy(), k.gsm, "stop"), k.kase("running").then((o, f) ->
        !ended(k, o.st, f) ? "the machine does not end" : !World.eq(f, current(k, o.st), ke) ? "the current state becomes " + current(k, o.st) : null));
    // nothing else does
    ConcCells c = new ConcCells();
    for (Prog.M m : c.methods()) {
      for (Engine.Out o : c.run(m)) {
        r.paths++;
        for (Eff g : World.all(o.st.trace)) {
          if (!c.isEnded(g) || g.k != Eff.K.WRITE && g.k != Eff.K.CAS) continue;
          if (g.k == Eff.K.CAS && V.FALSE.equals(g.res)) continue;
          V val = g.k == Eff.K.CAS ? g.arg(1) : g.arg(0);
          V endO = c.w.obs(o.st, c.w.gsm, "getEndState");
          boolean mayEnd = !Boolean.FALSE.equals(c.flag("isEnded", o, g, true));
          boolean tied = val.is("equals") && (val.a[0].equals(endO) || val.a[1].equals(endO))
              || val.is("same") && (val.a[0].equals(endO) || val.a[1].equals(endO));
          // a constant written under the test: if (state.equals(end)) ended = true
          if (val.isInt() || val.k == V.K.OBJ) for (Map.Entry<String, V> at : o.st.atoms.entrySet())
            tied |= Boolean.TRUE.equals(o.st.facts.get(at.getKey())) && (at.getValue().is("equals") || at.getValue().is("same"))
                && (at.getValue().a[0].equals(endO) || at.getValue().a[1].equals(endO));
          V now = mayEnd && !tied ? c.value("isEnded", o, g, true) : null;
          if (now != null) tied = (now.is("equals") || now.is("same")) && (now.a[0].equals(endO) || now.a[1].equals(endO)) || c.keeps("isEnded", o, g);
          String n = m.m.name;
          boolean stop = n.equals("stop") || n.equals("start");
          String rule = "only stop, an end transition or the configuration ends the machine";
          if (mayEnd && !tied && !stop) r.bad(rule, null, m.id() + " sets the ended flag to " + val + " at " + g.site, o.st, o.exc);
          else r.ok(rule);
        }
      }
    }
    r.use(c.w.e);
    endsAsConfigured();
  }
  /** A machine configured through its public interface, with pairwise different states and events. */
  final class Conf {
    final World w = new World(p, r, base).defaultStrategy().machine();
    final V[] s = new V[7];
    final V[] ev = new V[8];
    Conf() {
      for (int i = 0; i < s.length; i++) s[i] = w.sym("s" + i, "State").nn();
      for (int i = 0; i < ev.length; i++) ev[i] = w.sym("ev" + i, "StateEvent").nn();
      for (V[] a : List.of(s, ev)) for (int i = 0; i < a.length; i++) {
        w.distinct(a[i]);
        for (int j = 0; j < i; j++) w.st.assume(St.equalsTo(a[i], a[j]), false);
      }
    }
    void on(int from, int e, String how, V... args) {
      w.callOne(w.gsm, "when", s[from]);
      w.callOne(w.gsm, "receives", ev[e]);
      w.callOne(w.gsm, how, args);
    }
    /** 0 initial: goes to 2 (never configured), 3 (configured to end), 4 (with transitions), ends, stays, 5 (only ends on an event); 4 goes to 6 (never configured). */
    Conf full() {
      w.callOne(w.gsm, "initialSate", s[0]);
      w.callOne(w.gsm, "receives", ev[0]);
      w.callOne(w.gsm, "itTransitionsTo", s[2]);
      on(0, 1, "itTransitionsTo", s[3]);
      on(0, 2, "itTransitionsTo", s[4]);
      on(0, 3, "itEnds");
      on(0, 4, "itDoesNotTransition");
      on(0, 5, "itTransitionsTo", s[5]);
      on(0, 6, "itTransitionsTo", s[0]);
      w.callOne(w.gsm, "when", s[3]);
      w.callOne(w.gsm, "itEnds");
      on(4, 0, "itTransitionsTo", s[0]);
      on(4, 5, "itTransitionsTo", s[6]);
      on(5, 0, "itEnds");
      return this;
    }
    V task() { return w.field(w.st, w.strategy, v -> v.k == V.K.OBJ && "TransitionTask".equals(v.shortType())); }
  }
  /** Which of the outcomes of a configured state end the machine. */
  private void endsAsConfigured() {
    Conf c = new Conf().full();
    World w = c.w;
    String rule = "configured machine ends exactly in states without outcomes, in states configured to end, and on events configured to end";
    r.roots.add("initialSate/when/receives/itTransitionsTo/itEnds/itDoesNotTransition -> start -> execute");
    V end = w.obs(w.st, w.gsm, "getEndState");
    w.e.nonThrowing.addAll(World.TRANSITION_OPS);
    St started = w.normal(w.call(w.st.copy(), w.gsm, "start"), "start").st;
    Boolean e0 = w.obsBool(started, started, w.gsm, "isEnded");
    if (e0 == null) r.undecided(rule, "isEnded after start");
    else if (e0) r.bad(rule, null, "the machine ends on entering an initial state with outcomes", started, null);
    else r.ok(rule);
    V task = c.task();
    Map<Integer, St> from = new HashMap<>();
    from.put(0, started);
    for (int i : new int[]{4, 5}) from.put(i, w.normal(w.call(w.st.copy(), w.gsm, "startInState", c.s[i]), "startInState").st);
    Object[][] q = {{0, "a state that has no outcomes of its own", c.s[2], true}, {1, "a state configured to end", c.s[3], true}, {2, "a state with a transition", c.s[4], false},
        {3, "an event configured to end", null, true}, {4, "an event configured not to transition", null, false},
        {5, "a state whose only outcome ends on an event", c.s[5], false}, {6, "a transition to the same state", c.s[0], false}, {7, "an event that is not mapped", null, false},
        {0, "a transition back to the initial state", c.s[0], false, 4}, {1, "an event that is not mapped in another state", null, false, 4},
        {5, "a state that has no outcomes of its own, reached from another than the initial state", c.s[6], true, 4},
        {0, "an event configured to end another state than the initial one", null, true, 5}, {3, "an event that ends only in another state", null, false, 5}};
    for (Object[] t : q) {
      St s = from.get(t.length > 4 ? t[4] : 0).copy();
      s.trace.clear();
      for (Engine.Out o : w.call(s, task, "execute", c.ev[(Integer) t[0]], w.gsm)) {
        r.paths++;
        if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
        Boolean e = w.obsBool(o.st, o.st, w.gsm, "isEnded");
        V cur = w.obs(o.st, w.gsm, "getCurrentState");
        if (e == null) r.undecided(rule, "isEnded is not decided for " + t[1]);
        else if (e != (Boolean) t[3]) r.bad(rule, null, "after " + t[1] + " the machine has " + (e ? "" : "not ") + "ended", o.st, o.exc);
        else if (e && !World.eq(o.st, cur, end)) r.bad(rule, null, "after " + t[1] + " the machine ends with current state " + cur, o.st, o.exc);
        else r.ok(rule);
      }
    }
    r.use(w.e);
    // an initial state that is itself configured to end
    Conf d = new Conf();
    d.w.callOne(d.w.gsm, "initialSate", d.s[0]);
    d.w.callOne(d.w.gsm, "itEnds");
    d.on(1, 1, "itTransitionsTo", d.s[0]);
    d.w.e.nonThrowing.addAll(World.TRANSITION_OPS);
    for (Engine.Out o : d.w.call(d.w.st.copy(), d.w.gsm, "start")) {
      r.paths++;
      if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
      Boolean e = d.w.obsBool(o.st, o.st, d.w.gsm, "isEnded");
      if (o.exc != null) r.bad(rule, null, "start() in an initial state configured to end throws " + V.shortName(o.exc.type), o.st, o.exc);
      else if (e == null) r.undecided(rule, "isEnded after start in an initial state configured to end");
      else if (!e) r.bad(rule, null, "start() in an initial state configured to end does not end the machine", o.st, null);
      else r.ok(rule);
    }
    r.use(d.w.e);
    // a state configured to end keeps doing so when it is given further outcomes
    Conf g = new Conf().full();
    g.w.e.nonThrowing.addAll(World.TRANSITION_OPS);
    try { g.on(3, 6, "itTransitionsTo", g.s[4]); } catch (World.Refused e) { g = null; }
    if (g != null) {
      St s = g.w.normal(g.w.call(g.w.st.copy(), g.w.gsm, "start"), "start").st;
      s.trace.clear();
      for (Engine.Out o : g.w.call(s, g.task(), "execute", g.ev[1], g.w.gsm)) ended(g.w, o, rule, "entering a state configured to end that was then given another outcome", true, end(g.w));
      r.use(g.w.e);
    }
    // the entry action of the initial state has events processed before start() returns, as on an executor that runs work in the calling thread
    for (int k : new int[]{0, 1, 2, 3, 4, -1}) {
      Conf n = new Conf().full();
      World v = n.w;
      v.e.nonThrowing.addAll(World.TRANSITION_OPS);
      boolean[] in = new boolean[1];
      v.e.after.put(ENTRY, st -> {
        if (in[0]) return;
        in[0] = true;
        try { nest(v, st, t -> k < 0 ? v.call(t, v.gsm, "stop") : v.call(t, n.task(), "execute", n.ev[k], v.gsm)); } finally { in[0] = false; }
      });
      boolean ends = k != 2 && k != 4;
      for (Engine.Out o : v.call(v.st.copy(), v.gsm, "start"))
        ended(v, o, rule, "start() when the entry action of the initial state " + (k < 0 ? "stops the machine" : "has " + n.ev[k] + " processed"), ends, ends ? end(v) : n.s[k == 2 ? 4 : 0]);
      r.use(v.e);
    }
  }
  private V end(World w) { return w.obs(w.st, w.gsm, "getEndState"); }
  private void ended(World w, Engine.Out o, String rule, String what, boolean want, V cur) {
    r.paths++;
    if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); return; }
    Boolean e = w.obsBool(o.st, o.st, w.gsm, "isEnded");
    V c = w.obs(o.st, w.gsm, "getCurrentState");
    if (o.exc != null) r.bad(rule, null, what + ": throws " + V.shortName(o.exc.type) + " at " + o.exc.x, o.st, o.exc);
    else if (e == null) r.undecided(rule, "isEnded is not decided: " + what);
    else if (e != want) r.bad(rule, null, what + ": the machine has " + (e ? "" : "not ") + "ended", o.st, null);
    else if (!World.eq(o.st, c, cur)) r.bad(rule, null, what + ": the current state is " + c, o.st, null);
    else r.ok(rule);
  }
  /** start and startInState accept exactly the states that were configured. */
  private void startsAsConfigured() {
    String ISE = "java/lang/IllegalStateException", rule = "a configured machine starts exactly when its configuration is complete";
    r.roots.add("initialSate/when/receives/itTransitionsTo/itEnds/itDoesNotTransition -> start, startInState");
    Conf c = new Conf().full();
    World w = c.w;
    V unknown = w.sym("unknownState", "State").nn();
    for (V v : c.s) w.st.assume(St.equalsTo(v, unknown), false);
    w.distinct(unknown);
    w.e.nonThrowing.addAll(World.TRANSITION_OPS);
    accepts(w, w.st, rule, true, "start() of a completely configured machine", "start");
    accepts(w, w.st, rule, true, "startInState of the initial state", "startInState", c.s[0]);
    accepts(w, w.st, rule, true, "startInState of a state with transitions", "startInState", c.s[4]);
    accepts(w, w.st, rule, true, "startInState of a state whose event ends the machine", "startInState", c.s[5]);
    accepts(w, w.st, rule, false, "startInState of a state that is only a target", "startInState", c.s[2]);
    accepts(w, w.st, rule, false, "startInState of an unknown state", "startInState", unknown);
    rejectedNull(w, rule);
    St twice = w.normal(w.call(w.st.copy(), w.gsm, "start"), "start").st;
    rejected(w, twice, rule, "a second start()", true, "start");
    rejected(w, twice, rule, "startInState after start()", true, "startInState", c.s[0]);
    for (int from : new int[]{0, 4, 1}) {
      Conf d = new Conf().full();
      d.w.callOne(d.w.gsm, "when", d.s[from]);
      d.w.callOne(d.w.gsm, "receives", d.ev[7]);
      d.w.e.nonThrowing.addAll(World.TRANSITION_OPS);
      accepts(d.w, d.w.st, rule, false, "start() with an event that has no outcome in " + (from == 0 ? "the initial state" : from == 4 ? "another state" : "a state with no other outcome"), "start");
      d.w.callOne(d.w.gsm, from == 0 ? "itEnds" : "itDoesNotTransition");
      accepts(d.w, d.w.st, rule, true, "start() after the missing outcome was given", "start");
    }
    Conf n = new Conf();
    accepts(n.w, n.w.st, rule, false, "start() without an initial state", "start");
  }
  private void accepts(World w, St from, String rule, boolean ok, String what, String name, V... args) {
    if (!ok) { rejected(w, from, rule, what, false, name, args); return; }
    St s = from.copy();
    s.trace.clear();
    for (Engine.Out o : w.call(s, w.gsm, name, args)) {
      r.paths++;
      if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
      Boolean b = w.obsBool(o.st, o.st, w.gsm, "isStarted");
      if (o.exc != null) r.bad(rule, null, what + " throws " + V.shortName(o.exc.type), o.st, o.exc);
      else if (b == null) r.undecided(rule, "isStarted is not decided");
      else if (!b) r.bad(rule, null, what + " does not start the machine", o.st, null);
      else r.ok(rule);
    }
    r.use(w.e);
  }
  private void rejected(World w, St from, String rule, String what, boolean was, String name, V... args) {
    St s = from.copy();
    s.trace.clear();
    for (Engine.Out o : w.call(s, w.gsm, name, args)) {
      r.paths++;
      if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
      Boolean b = w.obsBool(o.st, o.st, w.gsm, "isStarted");
      List<Eff> l = World.effs(o.st.trace, ChkMachine::trans);
      if (o.exc == null) r.bad(rule, null, what + " is accepted", o.st, null);
      else if (!"java/lang/IllegalStateException".equals(o.exc.type)) r.bad(rule, null, what + " throws " + V.shortName(o.exc.type), o.st, o.exc);
      else if (!l.isEmpty()) r.bad(rule, null, what + " runs " + l.get(0).op + " at " + l.get(0).site, o.st, o.exc);
      else if (b == null) r.undecided(rule, "isStarted is not decided");
      else if (b != was) r.bad(rule, null, what + " leaves the machine started", o.st, o.exc);
      else if (was && !World.eq(o.st, w.obs(o.st, w.gsm, "getCurrentState"), w.obs(from, w.gsm, "getCurrentState"))) r.bad(rule, null, what + " changes the current state", o.st, o.exc);
      else r.ok(rule);
    }
    r.use(w.e);
  }
  /** No state at all: rejected like any other state that was not configured, however it is rejected. */
  private void rejectedNull(World w, String rule) {
    St s = w.st.copy();
    s.trace.clear();
    for (Engine.Out o : w.call(s, w.gsm, "startInState", V.NULL)) {
      r.paths++;
      if (World.imprecise(o.st)) { r.undecided(rule, World.notes(o.st)); continue; }
      Boolean b = w.obsBool(o.st, o.st, w.gsm, "isStarted");
      if (o.exc == null) r.bad(rule, null, "startInState of no state is accepted", o.st, null);
      else if (b != null && b) r.bad(rule, null, "startInState of no state leaves the machine started", o.st, o.exc);
      else r.ok(rule);
    }
  }
  boolean ended(World w, St snap, St facts) {
    Boolean b = w.obsBool(snap, facts, w.gsm, "isEnded");
    if (b == null) throw new World.Undecided("isEnded is not decided");
    return b;
  }

  // ---- starting (C05, C06) -----------------------------------------------------------------

  static final class Start { World w; List<Engine.Out> outs; V init, arg; }

  Start start(String name) { return start(name, w -> { }); }
  Start start(String name, java.util.function.Consumer<World> before) {
    Start s = new Start();
    World w = s.w = new World(p, r, base).defaultStrategy().machine().configured();
    // the initial state as start() sees it
    V cell = null;
    for (St.Cell c : w.st.heap.values()) if (w.s0.equals(c.val) && c.base.k == V.K.OBJ && p.inApp(c.base.type) && !c.f.startsWith("$")) {
      String f = V.shortName(p.fieldOwner(c.base.type, c.f)) + "." + c.f;
      if (w.mutableFields().contains(f) && (cell == null || c.base.equals(w.gsm)) && remains(w, c)) cell = V.fld(c.base, c.f, c.val.type, 0);
    }
    w.havoc();
    w.e.nullValues = true;
    s.init = cell;
    if (cell == null) throw new World.Undecided("the initial state is not kept in a field of the machine");
    w.st.assume(St.isNull(w.mapget(w.map, s.init)), false);
    before.accept(w);
    if (name.equals("start")) s.outs = w.call(w.st.copy(), w.gsm, "start");
    else {
      s.arg = w.sym("resumeState", "State").nn();
      s.outs = w.call(w.st.copy(), w.gsm, "startInState", s.arg);
    }
    return s;
  }
  /** Is this cell the initial state, and not the state being configured? */
  private boolean remains(World w, St.Cell c) {
    St s = w.st.copy();
    V ev = w.sym("ev", "StateEvent").nn();
    V m = w.gsm;
    for (Engine.Out o : w.call(s, m, "receives", ev)) {
      if (o.exc != null) continue;
      for (Engine.Out q : w.call(o.st, m, "itDoesNotTransition")) {
        if (q.exc != null) continue;
        return w.s0.equals(q.st.get(c.base, c.f));
      }
    }
    return true;
  }

  boolean startEffect(World w, Eff f, Set<String> cells) {
    return trans(f) || (f.k == Eff.K.WRITE || f.k == Eff.K.CAS && !V.FALSE.equals(f.res)) && cells.contains(cellKey(f));
  }
  static String cellKey(Eff f) { return f.op + " of " + f.recv; }

  void c05() {
    String ISE = "java/lang/IllegalStateException";
    for (String n : List.of("start", "startInState")) {
      Start s = start(n);
      World w = s.w;
      V started = w.obs(w.st, w.gsm, "isStarted");
      if (started == null) throw new World.Undecided("isStarted has no single value");
      Set<String> cells = new ConcCells().cells();
      World.Expect reject = (o, f) -> {
        List<Eff> l = World.effs(o.st.trace, g -> startEffect(w, g, cells));
        if (!l.isEmpty()) return "an invalid call has the effect " + l.get(0).op + " on " + l.get(0).recv + " at " + l.get(0).site;
        if (o.exc == null) return "an invalid call returns normally";
        return ISE.equals(o.exc.type) ? null : "an invalid call throws " + V.shortName(o.exc.type);
      };
      List<World.Case> cs = new ArrayList<>();
      cs.add(w.kase("already started").is(started).then(reject));
      if (n.equals("start")) {
        cs.add(w.kase("no initial state").is(St.isNull(s.init)).then(reject));
        cs.add(w.kase("not started").not(started).not(St.isNull(s.init)).then((o, f) -> {
          List<Eff> l = World.effs(o.st.trace, g -> startEffect(w, g, cells));
          if (l.isEmpty()) return o.exc != null && ISE.equals(o.exc.type) ? null : "neither starts nor throws IllegalStateException";
          return validated(w, o, l.get(0));
        }));
        cs.add(w.kase("not started, machine starts").not(started).not(St.isNull(s.init)).then((o, f) ->
            o.exc == null && !Boolean.TRUE.equals(w.obsBool(o.st, f, w.gsm, "isStarted")) ? "returns normally but the machine is not started" : null));
      } else {
        V has = V.app("haskey", "Z", w.map, s.arg);
        V has2 = St.isNull(w.mapget(w.map, s.arg));
        cs.add(w.kase("state not configured").not(has).is(has2).then(reject));
        cs.add(w.kase("state configured").not(started).is(has).not(has2).then((o, f) -> {
          if (o.exc != null) return "a valid call throws " + V.shortName(o.exc.type);
          return Boolean.TRUE.equals(w.obsBool(o.st, f, w.gsm, "isStarted")) ? null : "the machine is not started";
        }));
      }
      w.cases(n, s.outs, cs.toArray(new World.Case[0]));
      boolean starts = false;
      for (Engine.Out o : s.outs) if (o.exc == null) starts = true;
      if (!starts) r.bad(n, null, "no path starts the machine", null, null);
    }
    // the claim is atomic
    ConcCells c = new ConcCells();
    Set<V> common = null;
    for (Prog.M m : c.methods()) {
      for (Engine.Out o : c.run(m)) {
        r.paths++;
        List<Eff> tr = o.st.trace;
        for (int i = 0; i < tr.size(); i++) {
          Eff g = tr.get(i);
          if (!c.isStarted(g) || g.k != Eff.K.WRITE && g.k != Eff.K.CAS) continue;
          if (g.k == Eff.K.CAS && V.FALSE.equals(g.res)) continue;
          String rule = "the started flag is claimed once";
          String at = m.id() + " at " + g.site;
          V val = g.k == Eff.K.CAS ? g.arg(1) : g.arg(0);
          Boolean was = c.flag("isStarted", o, g, false), is = c.flag("isStarted", o, g, true);
          if (was != null && was.equals(is) && g.res == null || c.keeps("isStarted", o, g)) { r.ok(rule); continue; }
          if (Boolean.TRUE.equals(is) && !m.m.name.startsWith("start") && p.classes.get(type("StateMachine")).methods.stream().anyMatch(x -> x.name.equals(m.m.name) && x.desc.equals(m.m.desc))) {
            r.bad(rule, null, at + " makes the machine one that has been started", o.st, o.exc);
            continue;
          }
          if (!Boolean.TRUE.equals(is)) { r.bad(rule, null, at + " sets the started flag to " + val, o.st, o.exc); continue; }
          if (g.k == Eff.K.CAS) {
            if (Boolean.FALSE.equals(was)) r.ok(rule);
            else r.bad(rule, null, at + " claims the started flag from " + g.arg(0), o.st, o.exc);
            continue;
          }
          if (g.res != null) { // getAndSet: the returned value decides
            if (Boolean.FALSE.equals(was)) r.ok(rule);
            else if (o.exc != null && ISE.equals(o.exc.type)) r.ok(rule);
            else r.bad(rule, null, at + " ignores whether the machine was already started", o.st, o.exc);
            continue;
          }
          if (Boolean.FALSE.equals(was)) {
            r.ok(rule);
            Set<V> l = new HashSet<>(g.locks);
            if (common == null) common = l; else common.retainAll(l);
          } else r.bad(rule, null, at + " sets the started flag without having read it false in the same critical section", o.st, o.exc);
        }
        // effects of a start only after the claim
        boolean entry = m.m.name.equals("start") || m.m.name.equals("startInState");
        if (entry) startOrder(c, m, o);
      }
    }
    if (common != null && common.isEmpty()) r.bad("the started flag is claimed once", null, "the calls that start the machine hold no common lock", null, null);
    r.use(c.w.e);
    startsAsConfigured();
  }
  private void startOrder(ConcCells c, Prog.M m, Engine.Out o) {
    String rule = "nothing happens before the claim";
    Set<String> cells = c.cells();
    Eff claim = null;
    for (Eff g : o.st.trace) {
      if (c.claims(o, g)) { claim = g; break; }
    }
    for (Eff g : o.st.trace) {
      if (g == claim) break;
      if (!startEffect(c.w, g, cells)) continue;
      if (claim == null) {
        r.bad(rule, null, m.id() + " has the effect " + g.op + " on " + g.recv + " at " + g.site + " without starting the machine", o.st, o.exc);
        return;
      }
      if (claim.region == 0 || g.region != claim.region) {
        r.bad(rule, null, m.id() + " has the effect " + g.op + " on " + g.recv + " at " + g.site + " before it has claimed the start at " + claim.site, o.st, o.exc);
        return;
      }
    }
    r.ok(rule);
  }

  /** Every configured event was seen to have an outcome before the first effect of starting. */
  private String validated(World w, Engine.Out o, Eff first) {
    int n = o.st.trace.indexOf(first);
    List<Eff> before = n < 0 ? o.st.trace : o.st.trace.subList(0, n);
    for (int i = 0; i < before.size(); i++) {
      Eff l = before.get(i);
      if (l.k != Eff.K.LOOP) continue;
      boolean done = false;
      V over = null;
      for (int j = i + 1; j < before.size(); j++) {
        Eff g = before.get(j);
        if (g.k == Eff.K.ITER && g.is("iter.done") && ofMap(w, g.recv)) { done = true; over = g.recv; break; }
      }
      if (!done) continue;
      for (Loop.Iter it : l.loop.iters) {
        String e = innerChecked(w, o, l.loop, it, over);
        if (e != null) return e;
      }
      return null;
    }
    return "starts at " + first.site + " without looking at every configured event for a missing outcome";
  }
  private boolean ofMap(World w, V c) {
    return (c.is("entrySet") || c.is("values") || c.is("keySet")) && c.a[0].equals(w.map);
  }
  private String innerChecked(World w, Engine.Out o, Loop outer, Loop.Iter it, V over) {
    V elem = null;
    for (Eff g : it.effs) if (g.k == Eff.K.ITER && g.is("iter.next") && g.recv.equals(over)) { elem = g.res; break; }
    if (elem == null) return null;
    Set<String> inners = new HashSet<>();
    inners.add(elem.key);
    inners.add("getValue(" + elem.key + ")");
    inners.add("mapget(" + w.map.key + ", " + elem.key + ")");
    inners.add("mapget(" + w.map.key + ", getKey(" + elem.key + "))");
    for (Map.Entry<String, V> a : it.end.atoms.entrySet()) {
      V v = a.getValue();
      if ((v.is("contains") || v.is("containsValue")) && v.a[1].isNull() && Boolean.FALSE.equals(it.end.facts.get(a.getKey()))) {
        V q = v.a[0].is("values") ? v.a[0].a[0] : v.a[0];
        if (inners.contains(q.key)) return null;
      }
    }
    for (int i = 0; i < it.effs.size(); i++) {
      Eff l = it.effs.get(i);
      if (l.k != Eff.K.LOOP) continue;
      V inner = null;
      for (int j = i + 1; j < it.effs.size(); j++) {
        Eff g = it.effs.get(j);
        if (g.k == Eff.K.ITER && g.is("iter.done") && (g.recv.is("entrySet") || g.recv.is("values") || g.recv.is("keySet"))
            && inners.contains(g.recv.a[0].key)) inner = g.recv;
      }
      if (inner == null) continue;
      for (Loop.Iter in : l.loop.iters) {
        V e = null;
        for (Eff g : in.effs) if (g.k == Eff.K.ITER && g.is("iter.next") && g.recv.equals(inner)) e = g.res;
        if (e == null) continue;
        V val = inner.is("values") ? e : inner.is("entrySet") ? V.app("getValue", null, e) : V.app("mapget", null, inner.a[0], e);
        if (!Boolean.FALSE.equals(in.end.decideNull(val)) && !Flags.never(w.e.lib, o.st, o.st.trace, List.of(outer, l.loop), List.of(it, in)))
          return "a configured event without an outcome does not prevent the start (loop at " + l.site + ")";
      }
      return null;
    }
    if (!it.end.notes.isEmpty()) throw new World.Undecided("validation loop uses " + it.end.notes);
    return "an entry of the transition table is accepted without looking at its outcomes";
  }

  void c06() {
    Start s = start("start");
    World w = s.w;
    V started = w.obs(w.st, w.gsm, "isStarted");
    V lis = listener(w);
    V imm = w.obs(w.st, w.gsm, "getImmediateEvent");
    List<World.Case> cs = new ArrayList<>();
    for (int li = 0; li < 2; li++) {
      boolean has = li == 1;
      World.Case c = w.kase("start, " + (has ? "listener set" : "no listener")).not(started).not(St.isNull(s.init));
      if (has) c.not(St.isNull(lis)); else c.is(St.isNull(lis));
      c.then((o, f) -> {
        List<Eff> got = World.effs(o.st.trace, ChkMachine::trans);
        if (got.isEmpty() && o.exc != null && "java/lang/IllegalStateException".equals(o.exc.type)) return null;
        V from = has && !got.isEmpty() ? got.get(0).arg(0) : null;
        List<World.X> want = new ArrayList<>();
        if (has) want.add(new World.X(BEGIN, lis, from, imm, s.init));
        want.add(new World.X(ENTRY, s.init, imm, w.gsm));
        if (has) want.add(new World.X(END, lis, from, imm, s.init));
        String e = World.exactly(o, f, got, want);
        if (e != null) return e;
        if (from != null) {
          V nm = w.obs(o.st, from, "getName");
          if (nm == null || !nm.equals(V.str("_UNINITIALISED_"))) return "the start is announced as coming from " + from + " named " + nm;
        }
        for (Eff g : got) {
          V cu = w.obs(g.snap, w.gsm, "getCurrentState");
          if (!World.eq(f, cu, s.init)) return "the current state is " + cu + " at " + g.op + " (" + g.site + ")";
        }
        return null;
      });
      cs.add(c);
    }
    cs.add(w.kase("events during the initial entry").not(started).not(St.isNull(s.init)).then((o, f) -> {
      for (Eff g : World.effs(o.st.trace, ChkMachine::trans)) {
        if (!g.op.equals(ENTRY)) continue;
        if (Boolean.TRUE.equals(w.obsBool(g.snap, f, w.gsm, "isStarted"))) {
          r.bad("start [no event is processed before the initial entry has completed]", "start-publishes-before-entry",
              "start() runs " + g.op + " of the initial state at " + g.site + " after the machine has been published as started, so an event fired meanwhile is processed concurrently", o.st, o.exc);
          return null;
        }
      }
      return null;
    }));
    w.cases("start", s.outs, cs.toArray(new World.Case[0]));
    // the entry action of the initial state stops the machine
    Start st = start("start", q -> q.e.after.put(ENTRY, t -> nest(q, t, u -> q.call(u, q.gsm, "stop"))));
    World z = st.w;
    V zl = listener(z), zi = z.obs(z.st, z.gsm, "getImmediateEvent");
    z.cases("start", st.outs, z.kase("the entry action stops the machine").not(z.obs(z.st, z.gsm, "isStarted")).not(St.isNull(st.init)).not(St.isNull(zl)).then((o, f) -> {
      List<Eff> got = World.effs(o.st.trace, ChkMachine::trans);
      if (got.isEmpty() && o.exc != null && "java/lang/IllegalStateException".equals(o.exc.type)) return null;
      V from = got.isEmpty() ? null : got.get(0).arg(0);
      return World.exactly(o, f, got, List.of(new World.X(BEGIN, zl, from, zi, st.init), new World.X(ENTRY, st.init, zi, z.gsm), new World.X(END, zl, from, zi, st.init)));
    }));
    // the initial state is current before the machine is seen as started
    ConcCells c = new ConcCells();
    Set<V> watch = c.observed();
    for (String n : List.of("start", "startInState")) {
      Prog.M m = w.find(w.gsm.type, n, n.equals("start") ? 0 : 1);
      for (Engine.Out o : c.run(m)) {
        Map<String, Integer> times = new HashMap<>();
        for (Eff g : World.effs(o.st.trace, ChkMachine::trans))
          if (times.merge(g.op, 1, Integer::sum) > 1) r.bad(n + " [other threads interfere]", null, g.op + " happens a second time at " + g.site, o.st, o.exc);
        boolean cur = false, pub = false;
        String rule = n + " [the state is current before the machine counts as started]";
        // what is changed in one critical section of the lock that every observer takes is seen at once
        Set<Integer> atOnce = new HashSet<>();
        for (Eff g : o.st.trace)
          if (c.isCurrent(g) && g.k == Eff.K.WRITE && g.region != 0 && g.locks.stream().anyMatch(l -> watch.stream().anyMatch(k -> ChkStrategy.excludes(l, k)))) atOnce.add(g.region);
        for (Eff g : o.st.trace) {
          if (c.isCurrent(g) && (g.k == Eff.K.WRITE || g.k == Eff.K.CAS && !V.FALSE.equals(g.res))) {
            V val = g.k == Eff.K.CAS ? c.value("getCurrentState", o, g, true) : g.arg(0);
            if (pub && !atOnce.contains(g.region) && !World.eq(o.st, val, c.w.obs(o.st, c.w.gsm, "getEndState"))) r.bad(rule, null, "the current state is assigned at " + g.site + " after the machine was published as started", o.st, o.exc);
            cur = true;
          }
          if (c.claims(o, g)) {
            pub = true;
            if (cur || atOnce.contains(g.region)) r.ok(rule);
            else r.bad(rule, null, "the machine is published as started at " + g.site + " before its current state is assigned", o.st, o.exc);
          }
        }
      }
    }
    Start t = start("startInState");
    World u = t.w;
    V has = V.app("haskey", "Z", u.map, t.arg);
    u.cases("startInState", t.outs, u.kase("valid").not(u.obs(u.st, u.gsm, "isStarted")).is(has).not(St.isNull(u.mapget(u.map, t.arg))).then((o, f) -> {
      List<Eff> got = World.effs(o.st.trace, ChkMachine::trans);
      if (!got.isEmpty()) return "resuming has the effect " + got.get(0).op + " at " + got.get(0).site;
      if (o.exc != null) return "throws " + V.shortName(o.exc.type);
      V cu = u.obs(o.st, u.gsm, "getCurrentState");
      return World.eq(f, cu, t.arg) ? null : "the current state is " + cu;
    }));
  }

  // ---- shared cells under concurrency (C04, C20) -------------------------------------------

  /** The machine's shared cells, and every method of the machine run with other threads interfering. */
  final class ConcCells {
    final World w;
    final Set<String> cur, ended, started;
    final Map<String, List<Engine.Out>> cache = new HashMap<>();
    ConcCells() {
      w = new World(p, r, base).defaultStrategy().machine();
      St initial = w.st.copy();
      w.configured().havoc();
      Set<String> seen = w.observed();
      w.e.conc = true;
      w.e.nullValues = true;
      for (String f : w.mutableFields()) if (!configOnly(f) || seen.contains(f)) w.e.shared.add(f);
      cur = reads("getCurrentState");
      ended = reads("isEnded");
      started = reads("isStarted");
      if (cur.isEmpty() || ended.isEmpty() || started.isEmpty()) throw new World.Undecided("an observer of the machine reads no shared cell");
      w.e.nonThrowing.add("x");
      domains(initial);
    }
    /** Cells behind the observers that are only ever given constants. */
    private void domains(St initial) {
      Map<String, Set<V>> d = new HashMap<>();
      Set<String> any = new HashSet<>();
      for (Prog.M m : methods()) for (Engine.Out o : run(m)) for (Eff g : World.all(o.st.trace)) {
        if (!isStarted(g) && !isEnded(g) || g.k != Eff.K.WRITE && g.k != Eff.K.CAS) continue;
        V v = g.k == Eff.K.CAS ? g.arg(1) : g.arg(0);
        if (!constant(v)) any.add(cellKey(g));
        Set<V> s = d.computeIfAbsent(cellKey(g), k -> new LinkedHashSet<>());
        s.add(v);
        V first = initial.get(g.recv, g.op.substring(g.op.lastIndexOf('.') + 1));
        if (first == null || !constant(first)) any.add(cellKey(g));
        else s.add(first);
      }
      d.keySet().removeAll(any);
      w.domain.putAll(d);
    }
    private boolean constant(V v) { return v != null && (v.isInt() || v.k == V.K.OBJ && v.op.startsWith("S")); }
    private boolean configOnly(String f) { return !f.startsWith(V.shortName(w.gsm.type) + "."); }
    Set<String> reads(String obs) {
      Set<String> s = new HashSet<>();
      for (Engine.Out o : w.call(w.st.copy(), w.gsm, obs)) for (Eff g : o.st.trace) if (g.k == Eff.K.READ) s.add(cellKey(g));
      return s;
    }
    boolean isCurrent(Eff g) { return cur.contains(cellKey(g)); }
    boolean isEnded(Eff g) { return ended.contains(cellKey(g)); }
    boolean isStarted(Eff g) { return started.contains(cellKey(g)); }
    /** What an observer says just before (or after) a change, from what its critical section has seen; null when that is not known. */
    Boolean flag(String obs, Engine.Out o, Eff g, boolean after) { return w.seen(obs, o.st, around(o, g, after)); }
    V value(String obs, Engine.Out o, Eff g, boolean after) { return w.seenValue(obs, o.st, around(o, g, after)); }
    /** Does this atomic replacement leave what the observer says as it was? */
    boolean keeps(String obs, Engine.Out o, Eff g) {
      if (g.k != Eff.K.CAS) return false;
      V b = value(obs, o, g, false), a = value(obs, o, g, true);
      return a != null && b != null && World.eq(o.st, a, b);
    }
    private Map<String, V[]> around(Engine.Out o, Eff g, boolean after) {
      Map<String, V[]> m = new HashMap<>();
      for (Eff h : World.all(o.st.trace)) {
        if (!isStarted(h) && !isEnded(h) || h.k != Eff.K.READ && h.k != Eff.K.WRITE && h.k != Eff.K.CAS) continue;
        World.cell(m, h, null);
      }
      for (Eff h : o.st.trace) {
        if (h == g) break;
        if (h.region != g.region || g.region == 0 || !isStarted(h) && !isEnded(h)) continue;
        if (h.k == Eff.K.READ) World.cell(m, h, h.res);
        else if (h.k == Eff.K.WRITE) World.cell(m, h, h.arg(0));
        else if (h.k == Eff.K.CAS) World.cell(m, h, V.TRUE.equals(h.res) ? h.arg(1) : null);
      }
      if (isStarted(g) || isEnded(g)) {
        if (g.k == Eff.K.CAS && V.TRUE.equals(g.res)) World.cell(m, g, after ? g.arg(1) : g.arg(0));
        else if (g.k == Eff.K.WRITE && (after || g.res != null)) World.cell(m, g, after ? g.arg(0) : g.res);
        else if (g.k == Eff.K.READ) World.cell(m, g, g.res);
      }
      return m;
    }
    /** Does this effect make the machine started? */
    boolean claims(Engine.Out o, Eff g) {
      if (!isStarted(g) || g.k != Eff.K.WRITE && !(g.k == Eff.K.CAS && !V.FALSE.equals(g.res))) return false;
      return !Boolean.FALSE.equals(flag("isStarted", o, g, true)) && !Boolean.TRUE.equals(flag("isStarted", o, g, false)) && !keeps("isStarted", o, g);
    }
    /** The locks under which every method looks at what makes the machine started. */
    Set<V> observed() {
      Set<V> l = null;
      for (Prog.M m : methods()) for (Engine.Out o : run(m)) for (Eff g : World.all(o.st.trace)) {
        if (!isStarted(g) || g.k != Eff.K.READ && g.k != Eff.K.CAS) continue;
        if (l == null) l = new HashSet<>(g.locks);
        else l.retainAll(g.locks);
      }
      return l == null ? Set.of() : l;
    }
    Set<String> cells() {
      Set<String> s = new HashSet<>(cur);
      s.addAll(ended);
      s.addAll(started);
      return s;
    }
    List<Prog.M> methods() {
      List<Prog.M> l = new ArrayList<>();
      for (MethodNode m : p.classes.get(w.gsm.type).methods) {
        if ((m.access & (Opcodes.ACC_PRIVATE | Opcodes.ACC_STATIC | Opcodes.ACC_SYNTHETIC | Opcodes.ACC_BRIDGE)) != 0 || m.name.startsWith("<")) continue;
        l.add(p.declared(w.gsm.type, m.name, m.desc));
      }
      return l;
    }
    List<Engine.Out> run(Prog.M m) {
      String k = m.toString();
      if (cache.containsKey(k)) return cache.get(k);
      Type[] ts = Type.getArgumentTypes(m.m.desc);
      V[] a = new V[ts.length + 1];
      a[0] = w.gsm;
      for (int i = 0; i < ts.length; i++) a[i + 1] = V.sym("arg" + i, Engine.internal(ts[i]));
      r.roots.add(m.id());
      List<Engine.Out> o = w.e.run(m, a, w.st.copy());
      cache.put(k, o);
      return o;
    }
  }

  /** Does this effect atomically replace both the current state and the flags of a machine that has not ended (or not started)? */
  private boolean onRunning(ConcCells c, Engine.Out o, Eff g) {
    if (g.k != Eff.K.CAS || !c.isCurrent(g) || !c.isEnded(g)) return false;
    return Boolean.FALSE.equals(c.flag("isEnded", o, g, false)) || Boolean.FALSE.equals(c.flag("isStarted", o, g, false));
  }

  void c04() {
    ConcCells c = new ConcCells();
    Set<V> common = null;
    String one = null;
    String rule = "ended is final";
    boolean lockFree = true;
    for (Prog.M m : c.methods()) for (Engine.Out o : c.run(m)) for (Eff g : World.all(o.st.trace))
      if ((c.isCurrent(g) || c.isEnded(g)) && (g.k == Eff.K.WRITE || g.k == Eff.K.CAS && !V.FALSE.equals(g.res))) lockFree &= onRunning(c, o, g);
    for (Prog.M m : c.methods()) {
      for (Engine.Out o : c.run(m)) {
        r.paths++;
        List<Eff> tr = o.st.trace;
        for (Eff g : World.all(tr)) {
          boolean w1 = c.isCurrent(g) || c.isEnded(g);
          if (!w1 || g.k != Eff.K.WRITE && g.k != Eff.K.CAS) continue;
          if (g.k == Eff.K.CAS && V.FALSE.equals(g.res)) continue;
          String at = m.id() + " at " + g.site;
          String what = c.isCurrent(g) ? "current state" : "ended flag";
          // the pair is one value, only ever replaced while it is known that the machine has not ended
          if (lockFree) { r.ok(rule); continue; }
          // every change of the pair is made under one lock
          Set<V> l = new HashSet<>(g.locks);
          if (common == null) { common = l; one = at; }
          else {
            Set<V> n = new HashSet<>(common);
            n.retainAll(l);
            if (n.isEmpty() && !common.isEmpty()) {
              r.bad(rule, null, "the " + what + " is changed in " + at + " without the lock held by the other changes (" + one + ")", o.st, o.exc);
              continue;
            }
            common = n;
          }
          if (l.isEmpty()) {
            r.bad(rule, null, "the " + what + " is changed in " + at + " without a lock, so it can follow the end of the machine on another thread", o.st, o.exc);
            continue;
          }
          boolean guarded = false, fresh = false;
          for (Eff h : tr) {
            if (h == g) break;
            if (h.region != g.region || !c.isEnded(h) && !c.isStarted(h)) continue;
            if (h.k != Eff.K.READ && !(h.k == Eff.K.CAS && V.TRUE.equals(h.res))) continue;
            guarded |= Boolean.FALSE.equals(c.flag("isEnded", o, h, false));
            fresh |= Boolean.FALSE.equals(c.flag("isStarted", o, h, false));
          }
          guarded |= Boolean.FALSE.equals(c.flag("isEnded", o, g, false));
          fresh |= Boolean.FALSE.equals(c.flag("isStarted", o, g, false));
          V val = g.k == Eff.K.CAS ? g.arg(1) : g.arg(0);
          if (c.isEnded(g) && Boolean.TRUE.equals(c.flag("isEnded", o, g, true))) { r.ok(rule); continue; }
          if (guarded || fresh) r.ok(rule);
          else r.bad(rule, null, "the " + what + " is changed to " + val + " in " + at + " although the machine may already have ended", o.st, o.exc);
        }
      }
    }
    r.use(c.w.e);
    new ChkStrategy(p, r, base).endedDrain();
  }

  void c20() {
    ConcCells c = new ConcCells();
    String rule = "shared field is safely published";
    // fields that change while the machine runs
    Map<String, List<Set<V>>> locksPer = new TreeMap<>();
    Map<String, String> where = new HashMap<>();
    Set<String> written = new TreeSet<>();
    Set<String> config = Set.of("initialSate", "when", "receives", "itEnds", "itTransitionsTo", "itDoesNotTransition");
    for (Prog.M m : c.methods()) {
      if (config.contains(m.m.name)) continue;
      for (Engine.Out o : c.run(m)) {
        r.paths++;
        for (Eff g : World.all(o.st.trace)) {
          plain(m.id(), o, g);
          if (g.k != Eff.K.WRITE && g.k != Eff.K.READ || g.op.startsWith("$") || !g.op.contains(".") || !c.w.gsm.equals(g.recv)) continue;
          locksPer.computeIfAbsent(g.op, k -> new ArrayList<>()).add(new HashSet<>(g.locks));
          if (g.k == Eff.K.WRITE) {
            written.add(g.op);
            where.put(g.op, m.id() + " at " + g.site);
          }
        }
      }
    }
    for (String f : written) {
      FieldNode fn = p.field(owner(c, f), f.substring(f.indexOf('.') + 1));
      boolean vol = fn != null && (fn.access & (Opcodes.ACC_VOLATILE | Opcodes.ACC_FINAL)) != 0;
      Set<V> common = null;
      for (Set<V> s : locksPer.get(f)) {
        if (common == null) common = new HashSet<>(s); else common.retainAll(s);
      }
      if (vol || common != null && !common.isEmpty()) r.ok(rule);
      else r.bad(rule, null, "field " + f + ", changed by " + where.get(f) + ", is neither volatile nor always accessed under one lock", null, null);
    }
    // observers read an atomic, a volatile, or under the lock of the writers
    for (String obs : List.of("getCurrentState", "isStarted", "isEnded")) {
      for (Engine.Out o : c.w.call(c.w.st.copy(), c.w.gsm, obs)) for (Eff g : o.st.trace) {
        plain(obs, o, g);
        if (g.k != Eff.K.READ || g.op.startsWith("$")) { if (g.k == Eff.K.READ) r.ok("observer " + obs); continue; }
        FieldNode fn = p.field(owner(c, g.op), g.op.substring(g.op.indexOf('.') + 1));
        if (fn != null && (fn.access & (Opcodes.ACC_VOLATILE | Opcodes.ACC_FINAL)) != 0 || !g.locks.isEmpty()) r.ok("observer " + obs);
        else r.bad("observer " + obs, null, obs + " reads " + g.op + ", which is not volatile, at " + g.site, o.st, o.exc);
      }
    }
    // memory ordering may come from a lock only if everyone takes it
    for (Map.Entry<V, Runnable> e : plainAt.entrySet()) if (unlocked.contains(e.getKey())) e.getValue().run();
    // replacing or clearing the listener during an announcement
    World w = c.w;
    V cell = null;
    St s0 = w.st.copy();
    w.e.conc = false;
    try { cell = listener(w); } finally { w.e.conc = true; }
    w.e.nullable.add(cell.op);
    V from = w.sym("from", "State").nn(), to = w.sym("to", "State").nn(), ev = w.sym("event", "StateEvent").nn();
    for (V flag : List.of(V.TRUE, V.FALSE)) {
      for (Engine.Out o : w.call(w.st.copy(), w.gsm, "notifyStateMachineListener", flag, from, ev, to)) {
        r.paths++;
        String rl = "a cleared listener does not fail the announcement";
        if (o.exc != null && "java/lang/NullPointerException".equals(o.exc.type))
          r.bad(rl, null, "the listener is read again after the null check: clearing it in between throws NullPointerException", o.st, o.exc);
        else r.ok(rl);
      }
    }
    listenerSetOnce(c);
    r.use(w.e);
    strategyFields();
  }
  /** An atomic accessed as if it were an ordinary field guarantees nothing to other threads. */
  private void plain(String where, Engine.Out o, Eff g) {
    if (!g.op.equals("$val") || g.k != Eff.K.READ && g.k != Eff.K.WRITE && g.k != Eff.K.CAS) return;
    if (g.locks.isEmpty()) unlocked.add(g.recv);
    if (g.k == Eff.K.CAS) return;
    V tag = g.arg(g.k == Eff.K.READ ? 0 : 1);
    String rule = "atomics are accessed with memory ordering";
    if (tag == null || !tag.isStr() || !"plain".equals(tag.x)) r.ok(rule);
    else if (!g.locks.isEmpty()) plainAt.putIfAbsent(g.recv, () -> r.bad(rule, null, where + " accesses " + g.recv + " without memory ordering at " + g.site + ", and others do not take its lock", o.st, o.exc));
    else r.bad(rule, null, where + " accesses " + g.recv + " without memory ordering at " + g.site, o.st, o.exc);
  }
  private final Set<V> unlocked = new HashSet<>();
  private final Map<V, Runnable> plainAt = new LinkedHashMap<>();
  /** Setting takes effect for every later announcement: the new listener, or none, is used. */
  private void listenerSetOnce(ConcCells c) {
    World w = new World(p, r, base).defaultStrategy().machine().configured().havoc();
    V nl = w.sym("newListener", "StateMachineListener");
    V from = w.sym("from", "State").nn(), to = w.sym("to", "State").nn(), ev = w.sym("event", "StateEvent").nn();
    String rule = "a replaced listener is the one that is called";
    for (V l : List.of(nl.nn(), V.NULL)) {
      for (Engine.Out a : w.call(w.st.copy(), w.gsm, "setStateMachineListener", l)) {
        for (Engine.Out o : w.call(a.st, w.gsm, "notifyStateMachineListener", V.TRUE, from, ev, to)) {
          List<Eff> got = World.effs(o.st.trace, ChkMachine::trans);
          if (l.isNull() ? got.isEmpty() && o.exc == null : got.size() == 1 && l.equals(got.get(0).recv)) r.ok(rule);
          else r.bad(rule, null, "after setStateMachineListener(" + l + ") the announcement makes the calls " + World.list(got), o.st, o.exc);
        }
      }
    }
  }
  private String owner(ConcCells c, String op) {
    String cls = op.substring(0, op.indexOf('.'));
    return cls.equals(V.shortName(c.w.gsm.type)) ? c.w.gsm.type : type(cls);
  }
  /** Fields of the strategy side written while events are processed. */
  private void strategyFields() {
    World w = new World(p, r, base).defaultStrategy().machine().configured().havoc();
    String rule = "strategy state is immutable or thread-safe while running";
    Set<String> own = Set.of("DefaultEventStrategy", "DropDuplicateEventStrategy", "TransitionTask", "EventMachinePairPool");
    ChkStrategy cs = new ChkStrategy(p, r, base);
    int n = 0;
    for (List<Engine.Out> outs : cs.firingAndDraining()) {
      for (Engine.Out o : outs) for (Eff g : World.all(o.st.trace)) {
        plain("event processing", o, g);
        if (g.k != Eff.K.WRITE || g.op.startsWith("$")) continue;
        String cls = g.op.substring(0, g.op.indexOf('.'));
        if (!own.contains(cls)) continue;
        FieldNode fn = p.field(type(cls), g.op.substring(g.op.indexOf('.') + 1));
        boolean vol = fn != null && (fn.access & Opcodes.ACC_VOLATILE) != 0;
        n++;
        if (vol || !g.locks.isEmpty()) r.ok(rule);
        else r.bad(rule, null, "field " + g.op + " is written at " + g.site + " while events are fired or processed, without a lock and not volatile", o.st, o.exc);
      }
    }
    if (n == 0) r.ok(rule);
  }
  private String type(String simple) { return p.cls(simple).name; }

  // ---- events outside the running phase (C26) ----------------------------------------------

  void c26() {
    World w = new World(p, r, base).machine().configured().havoc();
    w.event = w.sym("event", "StateEvent").nn();
    V started = w.obs(w.st, w.gsm, "isStarted"), ended = w.obs(w.st, w.gsm, "isEnded");
    if (started == null || ended == null) throw new World.Undecided("flags");
    List<Engine.Out> outs = w.call(w.st.copy(), w.gsm, "fire", w.event);
    String U = "UnexpectedFlowListener.";
    World.X proc = new World.X("EventProcessingStrategy.processEvent", w.strategy, w.event, w.gsm);
    java.util.function.Predicate<Eff> q = f -> f.k == Eff.K.CALL && (f.op.startsWith(U) || f.op.startsWith("EventProcessingStrategy.") || trans(f));
    w.cases("fire", outs,
        w.kase("not started").not(started).then((o, f) -> World.exactly(o, f, World.effs(o.st.trace, q),
            new World.X(U + "onEventBeforeMachineStart", w.ufl, w.event, w.gsm))),
        w.kase("ended").is(started).is(ended).then((o, f) -> World.exactly(o, f, World.effs(o.st.trace, q),
            new World.X(U + "onEventAfterMachineEnd", w.ufl, w.event, w.gsm))),
        w.kase("running").is(started).not(ended).then((o, f) -> World.exactly(o, f, World.effs(o.st.trace, q), proc)));
    ChkStrategy cs = new ChkStrategy(p, r, base);
    // on a built-in strategy, whatever other threads do meanwhile
    for (String kind : List.of("DefaultEventStrategy", "DropDuplicateEventStrategy")) {
      World v = cs.machine(kind);
      v.event = v.sym("event", "StateEvent").nn();
      Set<String> reported = v.observed();
      for (String f : v.mutableFields()) if (f.startsWith("GenericStateMachine.") || reported.contains(f)) v.e.shared.add(f);
      v.e.conc = true;
      v.cases("fire with " + kind + " while other threads use the machine", v.call(v.st.copy(), v.gsm, "fire", v.event), v.kase("any state").then((o, f) -> {
        List<Eff> rep = World.effs(o.st.trace, g -> g.k == Eff.K.CALL && (g.op.endsWith(".onEventBeforeMachineStart") || g.op.endsWith(".onEventAfterMachineEnd")));
        List<Eff> in = World.effs(o.st.trace, g -> g.k == Eff.K.MUT && g.op.contains("queue.offer") && v.queue.equals(g.recv) && !V.FALSE.equals(g.res));
        if (rep.size() > 1) return "one event is reported twice as fired outside the running phase, again at " + rep.get(1).site;
        if (!rep.isEmpty() && !in.isEmpty()) return "an event reported at " + rep.get(0).site + " as fired outside the running phase is queued all the same at " + in.get(0).site;
        return null;
      }));
    }
    // what was accepted is not reported as fired outside the running phase later on
    ChkStrategy.Drain d = cs.drain();
    String rule = "an event that was accepted is not reported later as fired outside the running phase";
    for (ChkStrategy.Run u : d.runs) {
      boolean any = false;
      for (Eff g : d.reports(u)) {
        if (!g.op.endsWith(".onEventBeforeMachineStart") && !g.op.endsWith(".onEventAfterMachineEnd")) continue;
        any = true;
        cs.bad(d, rule, "an event that was fired while the machine ran is reported by " + g.op + " at " + g.site + " when it is taken from the queue", u);
      }
      if (!any) r.ok(rule);
    }
  }
}
