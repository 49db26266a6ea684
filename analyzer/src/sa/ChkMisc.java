package sa;

import java.util.*;
import java.util.function.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Rules about states, events, actions, listeners, threads and collaborators: C16-C19, C24, C25, C29. */
final class ChkMisc {
  final Prog p; final Rep r; final Engine base;
  ChkMisc(Prog p, Rep r, Engine b) { this.p = p; this.r = r; base = b; }

  static final String ACT = "StateAction.execute";
  static final String RTE = "java/lang/RuntimeException";

  World world() { return new World(p, r, base); }
  String type(String simple) { return p.cls(simple).name; }
  static V arr(World w, String elem, V... l) { return w.e.lib.newKnown(w.st, "[L" + elem + ";", Arrays.asList(l), false); }

  /** May this value be an instance of an exception type, by what the handlers on its path have excluded? */
  boolean mayBe(V exc, String t) {
    if (exc.k == V.K.EXC) {
      @SuppressWarnings("unchecked") List<String> not = (List<String>) exc.x;
      for (String n : not) if (Boolean.TRUE.equals(p.subtype(t, n))) return false;
      return p.compatible(exc.type, t);
    }
    return exc.type == null || !Boolean.FALSE.equals(p.subtype(exc.type, t));
  }
  static boolean sameExc(V a, V b) { return b != null && (a.equals(b) || a.k == V.K.EXC && b.k == V.K.EXC && a.op.equals(b.op)); }

  void judge(World w, String rule, Engine.Out o, String err) {
    if (err == null) r.ok(rule);
    else if (World.imprecise(o.st)) r.undecided(rule, err + " on a path with approximated steps " + World.notes(o.st));
    else r.bad(rule, null, err, o.st, o.exc);
    if (err == null && r.samples.size() < 3) r.samples.add(rule + ": " + World.list(World.effs(o.st.trace, f -> f.k == Eff.K.CALL)));
  }
  static boolean otherThread(Eff g) {
    return g.k == Eff.K.CALL && (g.op.startsWith("executor.") || g.op.equals("Thread.start") || g.op.startsWith("async.") || g.op.startsWith("lib:CompletableFuture") || g.op.startsWith("lib:ForkJoin"));
  }

  // ---- C16 ---------------------------------------------------------------------------------

  void c16() {
    for (String ph : List.of("Entry", "Exit")) {
      // any list of actions
      World w = world();
      V s = w.make("NamedState", V.sym("name", "java/lang/String").nn());
      V acts = V.sym("actions", "[L" + type("StateAction") + ";").nn();
      V ev = w.sym("event", "StateEvent").nn(), sm = w.sym("machine", "StateMachine").nn();
      String root = "NamedState.append" + ph + "Actions";
      r.roots.add(root);
      V coll = null, kept = null;
      for (Engine.Out o : w.call(w.st.copy(), s, "append" + ph + "Actions", acts)) {
        r.paths++;
        if (o.exc != null) { judge(w, root, o, "throws " + V.shortName(o.exc.type)); continue; }
        List<Each> l = Each.of(w.e.lib, o.st, g -> g.k == Eff.K.MUT);
        boolean known = !l.isEmpty();
        for (Each e : l) known &= e.base != null;
        if (!known) {
          if (l.isEmpty() && World.effs(o.st.trace, g -> g.k == Eff.K.MUT).isEmpty() && !World.imprecise(o.st)) {
            boolean own = false;
            for (Eff g : World.all(o.st.trace)) if (g.k == Eff.K.WRITE && s.equals(g.recv)) own = true;
            if (own) r.undecided(root + " [any list]", "the actions are not kept in a list"); else judge(w, root, o, "appends nothing");
          } else r.undecided(root + " [any list]", "the traversal of the given actions was not recognised");
          continue;
        }
        // from the given actions to the list of the state, possibly through lists made on the way
        String err = null;
        V from = acts;
        boolean filtered = false;
        for (int n = 0; n < l.size() && err == null; n++) {
          Each e = l.get(n);
          boolean last = n == l.size() - 1;
          if (!e.base.equals(from)) err = "traverses " + e.base + " at " + e.loop.site + " instead of the given actions";
          else if (!"fwd".equals(e.dir)) err = "takes the given actions in " + (e.dir.equals("rev") ? "reverse" : e.dir.equals("dedup") ? "their order, leaving out repeated ones, not in" : "unordered") + " order at " + e.loop.site;
          else if (!e.exhausted) err = "stops at " + e.loop.site + " before all given actions are appended";
          boolean nulls = false;
          V to = null;
          for (int i = 0; i < e.iters.size() && err == null; i++) {
            V el = e.elems.get(i);
            Boolean nul = e.iters.get(i).end.decideNull(el);
            List<Eff> c = e.calls.get(i);
            if (c.isEmpty()) { if (!Boolean.TRUE.equals(nul)) err = "an action is skipped at " + e.loop.site; continue; }
            if (c.size() != 1) { err = "an action is appended " + c.size() + " times, at " + c.get(1).site; continue; }
            if (!Boolean.FALSE.equals(nul)) nulls = true;
            if (last && Boolean.TRUE.equals(nul) && !filtered) err = "a null action is appended at " + c.get(0).site;
            else if (!c.get(0).op.equals("list.add") || c.get(0).args.size() != 1 || !el.equals(c.get(0).arg(0))) err = "an action is stored by " + World.list(c) + " at " + c.get(0).site;
            else if (to != null && !to.equals(c.get(0).recv)) err = "the actions are stored in two lists, also at " + c.get(0).site;
            else to = c.get(0).recv;
          }
          filtered |= !nulls;
          if (err != null || to == null) continue;
          if (last) { coll = to; if (!filtered) err = "a null action is appended at " + e.loop.site; }
          else {
            V t = to;
            V start = e.loop.init.get(t + ".$list");
            if (!St.fresh(t) || start == null || start.a.length != 0 || o.st.trace.stream().anyMatch(g -> g.k == Eff.K.MUT && t.equals(g.recv)))
              err = "the given actions are also stored in " + t + " at " + e.loop.site;
            from = to;
          }
        }
        if (err == null && coll != null && !(St.fresh(coll) && isNew(coll, w))) {
          if (kept != null && !kept.equals(coll)) err = "the actions are stored in " + coll + " or in " + kept + ", depending on the actions given";
          kept = coll;
          for (Eff g : o.st.trace) if (g.k == Eff.K.MUT && coll.equals(g.recv) && !g.op.equals("list.add")) err = "the actions kept so far are changed by " + g.op + " at " + g.site;
        }
        judge(w, root + " [any list]", o, err);
      }
      // entering or leaving with any list of appended actions
      String run = "NamedState.on" + ph;
      r.roots.add(run);
      World v = world();
      V t = V.sym("state", type("NamedState")).nn();
      List<Engine.Out> outs = v.call(v.st.copy(), t, "on" + ph, ev, sm);
      for (Engine.Out o : outs) {
        r.paths++;
        List<Each> l = Each.of(v.e.lib, o.st, g -> g.op.equals(ACT));
        List<Eff> flat = World.effs(o.st.trace, g -> g.op.equals(ACT));
        if (l.isEmpty()) {
          // no loop: only right when the path knows the list is empty
          if (!flat.isEmpty()) { r.undecided(run + " [any list]", "actions run outside a recognised traversal"); continue; }
          boolean empty = false;
          for (Map.Entry<String, V> a : o.st.atoms.entrySet()) if (a.getValue().is("isnull")) empty = true;
          for (long[] iv : o.st.ivl.values()) if (iv[1] == 0 || iv[0] == 0) empty = true;
          if (empty) r.ok(run + " [any list]");
          else judge(v, run + " [any list]", o, "runs no action");
          continue;
        }
        if (l.size() != 1 || l.get(0).base == null) {
          if (l.size() > 1) judge(v, run + " [any list]", o, "actions run in " + l.size() + " loops, also at " + l.get(1).loop.site);
          else r.undecided(run + " [any list]", "the traversal of the actions was not recognised");
          continue;
        }
        Each e = l.get(0);
        String err = null;
        if ("dedup".equals(e.dir)) err = "an action that was appended twice runs once, at " + e.loop.site;
        else if (!"fwd".equals(e.dir)) err = "the actions run in " + (e.dir.equals("rev") ? "reverse" : "no fixed") + " order at " + e.loop.site;
        for (int i = 0; i < e.iters.size() && err == null; i++) {
          List<Eff> c = e.calls.get(i);
          V el = e.elems.get(i);
          if (c.isEmpty()) {
            if (!Boolean.TRUE.equals(e.iters.get(i).end.decideNull(el))) err = "an action is not run at " + e.loop.site;
          } else if (c.size() > 1 || c.get(0).op.startsWith("REPEATED")) err = "an action runs more than once, at " + c.get(c.size() - 1).site;
          else if (!el.equals(c.get(0).recv) || !ev.equals(c.get(0).arg(0)) || !sm.equals(c.get(0).arg(1))) err = "an action is run as " + World.list(c) + " at " + c.get(0).site;
          else if (c.get(0).thrown != null) err = "an action's exception is swallowed and the next action runs, at " + c.get(0).site;
        }
        if (err == null && o.exc == null && !e.exhausted) err = "stops at " + e.loop.site + " before all actions have run";
        if (err == null && o.exc != null) {
          boolean own = false;
          for (Eff g : e.after) if (g.thrown != null && g.op.equals(ACT) && sameExc(g.thrown, o.exc)) own = true;
          if (!own) err = "throws " + o.exc;
        }
        for (Eff g : World.all(o.st.trace)) if (otherThread(g)) err = "an action is handed to another thread at " + g.site;
        judge(v, run + " [any list]", o, err);
      }
      r.use(v.e);
      r.use(w.e);
    }
    // a history: which actions each phase runs, whatever the state is called
    for (V name : List.of(V.sym("name", "java/lang/String").nn(), V.NULL, V.str(""))) {
    World w = world();
    w.e.nonThrowing.add(ACT);
    String at = type("StateAction");
    V s = w.make("NamedState", name);
    V[] a = new V[7];
    for (int i = 0; i < 7; i++) a[i] = V.sym("a" + i, at).nn();
    String rule = "a history of appends";
    w.callOne(s, "appendEntryActions", arr(w, at, a[0], V.NULL, a[1]));
    w.callOne(s, "appendExitActions", arr(w, at, a[2]));
    w.callOne(s, "appendEntryActions", arr(w, at));
    w.callOne(s, "appendEntryActions", arr(w, at, a[3], a[0]));
    w.callOne(s, "appendExitActions", arr(w, at, V.NULL, a[4], a[5]));
    history(w, s, "onEntry", rule, w.sym("event1", "StateEvent").nn(), w.sym("machine1", "StateMachine").nn(), a[0], a[1], a[3], a[0]);
    history(w, s, "onEntry", rule, w.sym("event2", "StateEvent").nn(), w.sym("machine2", "StateMachine").nn(), a[0], a[1], a[3], a[0]);
    history(w, s, "onExit", rule, w.sym("event3", "StateEvent").nn(), w.sym("machine3", "StateMachine").nn(), a[2], a[4], a[5]);
    w.callOne(s, "appendExitActions", arr(w, at, a[6]));
    history(w, s, "onExit", rule, w.sym("event4", "StateEvent").nn(), w.sym("machine4", "StateMachine").nn(), a[2], a[4], a[5], a[6]);
    history(w, s, "onEntry", rule, w.sym("event5", "StateEvent").nn(), w.sym("machine5", "StateMachine").nn(), a[0], a[1], a[3], a[0]);
    r.use(w.e);
    }
  }
  private static boolean isNew(V o, World w) {
    try { return Integer.parseInt(o.op) >= w.st.next[0]; } catch (NumberFormatException e) { return false; }
  }
  private void history(World w, V s, String m, String rule, V ev, V sm, V... want) {
    w.st.trace.clear();
    List<World.X> x = new ArrayList<>();
    for (V a : want) x.add(new World.X(ACT, a, ev, sm));
    List<Engine.Out> outs = w.call(w.st.copy(), s, m, ev, sm);
    for (Engine.Out o : outs) {
      r.paths++;
      String err = World.exactly(o, o.st, World.effs(o.st.trace, g -> g.op.endsWith(ACT)), x);
      judge(w, rule + " [" + m + "]", o, err);
    }
    for (Engine.Out o : outs) if (o.exc == null) w.st = o.st;
  }

  /** Is the exception itself, and not only its message or class, part of what is logged? */
  private static boolean whole(V a, V exc) {
    if (a.equals(exc)) return true;
    if (a.op != null && Set.of("getMessage", "getLocalizedMessage", "getClass", "getCause", "hashCode").contains(a.op.substring(a.op.lastIndexOf('.') + 1))) return false;
    for (V x : a.a) if (whole(x, exc)) return true;
    return false;
  }

  // ---- C17 ---------------------------------------------------------------------------------

  void c17() {
    for (String cls : List.of("NamedState", "NamedStateEvent")) {
      World w = world();
      w.e.inlineEquals = true;
      String t = type(cls);
      String other = type(cls.equals("NamedState") ? "NamedStateEvent" : "NamedState");
      V a = V.sym("a", t).nn(), b = V.sym("b", t).nn(), x = V.sym("x", "java/lang/Object");
      // the name is the one given
      World v0 = world();
      V n0 = V.sym("given", "java/lang/String");
      V s0 = v0.make(cls, n0);
      String gr = cls + ".getName";
      for (Engine.Out o : v0.call(v0.st.copy(), s0, "getName"))
        judge(v0, gr, o, o.exc != null ? "throws " + V.shortName(o.exc.type) : World.eq(o.st, o.val, n0) || o.val.isNull() && Boolean.TRUE.equals(o.st.decideNull(n0)) ? null
            : "an object constructed with a name reports " + o.val);
      r.use(v0.e);
      V na = w.obs(w.st, a, "getName"), nb = w.obs(w.st, b, "getName");
      if (na == null || nb == null) throw new World.Undecided("getName of " + cls + " has no single value");
      identities.add(na);
      identities.add(nb);
      String root = cls + ".equals";
      // two of the same type, names equal or not (names may be null)
      List<Engine.Out> outs = w.call(w.st.copy(), a, "equals", b);
      World.Case eq = w.kase("same type, equal names").is(St.equalsTo(na, nb)).then((o, f) -> verdict(o, f, true));
      World.Case eqn = w.kase("same type, both names null").is(St.isNull(na)).is(St.isNull(nb)).then((o, f) -> verdict(o, f, true));
      World.Case ne = w.kase("same type, different names").not(St.same(a, b)).not(St.equalsTo(na, nb)).not(St.isNull(na)).not(St.isNull(nb)).then((o, f) -> verdict(o, f, false));
      World.Case ne2 = w.kase("same type, one name null").not(St.same(a, b)).is(St.isNull(na)).not(St.isNull(nb)).then((o, f) -> verdict(o, f, false));
      w.cases(root, outs, eq, eqn, ne, ne2);
      List<Engine.Out> self = w.call(w.st.copy(), a, "equals", a);
      w.cases(root, self, w.kase("itself").then((o, f) -> verdict(o, f, true)));
      w.cases(root, w.call(w.st.copy(), a, "equals", V.NULL), w.kase("null").then((o, f) -> verdict(o, f, false)));
      V oth = V.sym("other", other).nn();
      St so = w.st.copy();
      so.assume(St.same(a, oth), false);
      w.cases(root, w.call(so, a, "equals", oth), w.kase("an object of the other type").then((o, f) -> verdict(o, f, false)));
      // an unknown object: equal only when it is of this type
      V inst = V.app("instanceof", "Z", x, V.cls(t));
      w.cases(root, w.call(w.st.copy(), a, "equals", x),
          w.kase("an object of any other type").not(St.isNull(x)).not(inst).not(St.same(a, x)).then((o, f) -> verdict(o, f, false)));
      Set<String> derived = derived(cls, na);
      // hash code: a function of the name alone
      String hr = cls + ".hashCode";
      r.roots.add(hr);
      for (Engine.Out o : w.call(w.st.copy(), a, "hashCode")) {
        r.paths++;
        if (o.exc != null) { judge(w, hr, o, "throws " + V.shortName(o.exc.type)); continue; }
        Set<String> leaves = new TreeSet<>();
        leaves(o.val, na, leaves);
        // branches too
        for (Map.Entry<String, V> at : o.st.atoms.entrySet()) leaves(at.getValue(), na, leaves);
        leaves.removeIf(l -> l.startsWith("a.") && derived.contains(l.substring(2)));
        judge(w, hr, o, leaves.isEmpty() ? null : "the hash code " + o.val + " depends on " + leaves + ", not on the name alone");
      }
      // nothing equality or the hash depends on changes
      Set<String> used = new TreeSet<>();
      for (Engine.Out o : outs) { fields(o.val, used); for (V v : o.st.atoms.values()) fields(v, used); }
      for (Engine.Out o : w.call(w.st.copy(), a, "hashCode")) fields(o.val, used);
      fields(na, used);
      for (String f : used) {
        String rl = cls + " [what identifies it never changes]";
        if (w.mutableFields().contains(cls + "." + f) && !derived.contains(f)) r.bad(rl, null, "field " + cls + "." + f + ", which equality depends on, is assigned after construction", null, null);
        else r.ok(rl);
      }
      if (used.isEmpty()) r.undecided(cls, "equality depends on no recognised field");
      r.use(w.e);
    }
    // a payload does not matter
    World w = world();
    V e1 = w.make("NamedStateEvent", V.sym("n", "java/lang/String").nn());
    V e2 = w.make("NamedStateEvent", V.sym("n", "java/lang/String").nn());
    w.callOne(e1, "setPayload", V.sym("p1", null));
    w.e.inlineEquals = true;
    for (Engine.Out o : w.call(w.st.copy(), e1, "equals", e2)) judge(w, "events with one name and different payloads are equal", o, verdict(o, o.st, true));
    V e3 = w.make("NamedStateEvent", w.typed(e1));
    for (Engine.Out o : w.call(w.st.copy(), e1, "equals", e3)) judge(w, "an event equals its copy", o, verdict(o, o.st, true));
    V n1 = w.obs(w.st, e3, "getName");
    if (n1 != null && n1.key.equals("n")) r.ok("a copied event keeps its name");
    else r.bad("a copied event keeps its name", null, "the copy is named " + n1, null, null);
    r.use(w.e);
  }
  /** The private fields of a class that only ever hold something computed from the name (a remembered hash code). */
  private Set<String> derived(String cls, V name) {
    Set<String> r0 = new TreeSet<>(), bad = new TreeSet<>();
    if (name.k != V.K.FLD) return r0;
    String t = type(cls);
    for (org.objectweb.asm.tree.MethodNode m : p.classes.get(t).methods) {
      if ((m.access & (org.objectweb.asm.Opcodes.ACC_STATIC | org.objectweb.asm.Opcodes.ACC_ABSTRACT)) != 0) continue;
      World v = world();
      org.objectweb.asm.Type[] ts = org.objectweb.asm.Type.getArgumentTypes(m.desc);
      V[] a = new V[ts.length + 1];
      a[0] = V.sym("self", t).nn();
      for (int i = 0; i < ts.length; i++) a[i + 1] = V.sym("arg" + i, Engine.internal(ts[i]));
      for (Engine.Out o : v.e.run(p.declared(t, m.name, m.desc), a, v.st.copy())) {
        V n = o.st.get(a[0], name.op);
        if (n == null) n = V.fld(a[0], name.op, "java/lang/String", 0);
        for (Eff g : World.all(o.st.trace)) {
          if (g.k != Eff.K.WRITE || !g.op.startsWith(cls + ".") || !a[0].equals(g.recv)) continue;
          String f = g.op.substring(cls.length() + 1);
          Set<String> ls = new TreeSet<>();
          leaves(g.arg(0), n, ls);
          for (V c : o.st.atoms.values()) leaves(c, n, ls);
          r0.add(f);
          if (!ls.isEmpty()) bad.add(f);
        }
      }
    }
    for (org.objectweb.asm.tree.FieldNode f : p.classes.get(t).fields) if ((f.access & org.objectweb.asm.Opcodes.ACC_PRIVATE) == 0) bad.add(f.name);
    r0.removeAll(bad);
    r0.remove(name.op);
    return r0;
  }
  private String verdict(Engine.Out o, St f, boolean want) {
    if (o.exc != null) return "throws " + V.shortName(o.exc.type);
    Boolean d = f.decide(o.val);
    if (d == null) {
      // what an object of another kind answers says nothing
      V v = o.val.is("not") ? o.val.a[0] : o.val;
      for (V x : v.a) if (x.k == V.K.APP && x.op.startsWith("get") && x.a.length == 1 && x.a[0].k == V.K.SYM) return "the result depends on " + v;
      Set<String> of = new TreeSet<>();
      fieldsOf(v, "other", of);
      if (!of.isEmpty()) return "the result depends on " + v;
      throw new World.Undecided("result " + o.val + " is not decided");
    }
    if (d != want) for (V c : o.st.atoms.values()) if (inner(c)) throw new World.Undecided("the result depends on " + c);
    return d == want ? null : "the result is " + d;
  }
  private final Set<V> identities = new HashSet<>();
  /** Does this mention part of an object that is itself part of the object compared, and not its name? */
  private boolean inner(V v) {
    if (v == null || identities.contains(v)) return false;
    if (v.k == V.K.FLD && v.a[0].k == V.K.FLD && v.a[0].type != null && p.inApp(v.a[0].type)) return true;
    for (V x : v.a) if (inner(x)) return true;
    return false;
  }
  private void leaves(V v, V ok, Set<String> out) {
    if (v == null || v.equals(ok)) return;
    if (v.k == V.K.APP) {
      if (v.op.equals("hashCode") && v.a[0].k == V.K.SYM && !v.a[0].equals(ok)) out.add("the identity of the object");
      for (V a : v.a) leaves(a, ok, out);
    } else if (v.k != V.K.CONST && !(v.k == V.K.OBJ && v.op.startsWith("S"))) out.add(v.toString());
  }
  private static void fieldsOf(V v, String sym, Set<String> out) {
    if (v.k == V.K.FLD && v.a[0].k == V.K.SYM && v.a[0].op.equals(sym)) out.add(v.op);
    for (V a : v.a) fieldsOf(a, sym, out);
  }
  private void fields(V v, Set<String> out) {
    if (v == null) return;
    if (v.k == V.K.FLD && v.a[0].k == V.K.SYM) out.add(v.op);
    for (V a : v.a) fields(a, out);
  }

  // ---- C18 ---------------------------------------------------------------------------------

  static final String HANDLER = "ExceptionHandler.onException";

  void c18() {
    World w = world();
    V act = w.sym("action", "StateAction").nn(), h = V.sym("handler", type("ExceptionHandler")).nn();
    V ev = w.sym("event", "StateEvent"), sm = w.sym("machine", "StateMachine");
    V wr = w.make("HandleExceptionAction", act, h);
    String root = "HandleExceptionAction.execute";
    World.Expect once = (o, f) -> {
      List<Eff> l = World.effs(o.st.trace, g -> g.op.equals(ACT) || g.op.equals(HANDLER));
      if (l.isEmpty()) return "the action is not run" + (o.exc != null ? ", " + o.exc + " is thrown" : "");
      for (Eff g : World.all(o.st.trace)) if (otherThread(g)) return "work is handed to another thread at " + g.site;
      Eff a = l.get(0);
      if (!new World.X(ACT, act, ev, sm).match(f, a)) return "runs " + World.list(l) + " at " + a.site;
      if (a.thrown == null) {
        if (l.size() > 1) return "calls " + World.list(l.subList(1, l.size())) + " at " + l.get(1).site + " although the action succeeded";
        return o.exc != null ? "throws " + o.exc + " although the action succeeded" : null;
      }
      if (l.size() == 1) {
        if (o.exc == null) return "the exception of the action is swallowed without calling the handler";
        return mayBe(o.exc, "java/lang/Exception") || mayBe(o.exc, RTE) || mayBe(o.exc, "java/io/IOException") ? "an exception of the action escapes without reaching the handler" : null;
      }
      if (l.size() > 2) return "calls " + World.list(l.subList(1, l.size()));
      Eff c = l.get(1);
      if (!new World.X(HANDLER, h, ev, sm, null).match(f, c)) return "calls " + World.list(l.subList(1, 2)) + " at " + c.site;
      if (!sameExc(c.arg(2), a.thrown)) return "the handler receives " + c.arg(2) + " instead of the action's exception at " + c.site;
      if (c.thrown != null) return null;
      return o.exc != null ? "throws " + o.exc + " after the handler has been called" : null;
    };
    List<Engine.Out> first = w.call(w.st.copy(), wr, "execute", w.sym("earlierEvent", "StateEvent"), w.sym("earlierMachine", "StateMachine"));
    w.cases(root, w.call(w.st.copy(), wr, "execute", ev, sm), w.kase("any action").then(once));
    // again, after any earlier use
    for (Engine.Out q : World.merge(first)) {
      St t = q.st.copy();
      t.trace.clear();
      w.cases(root, w.call(t, wr, "execute", ev, sm), w.kase(q.exc == null ? "after an earlier use" : "after an earlier use that threw").then(once));
    }
    r.use(w.e);
  }

  // ---- C19 ---------------------------------------------------------------------------------

  static final Set<String> CONCURRENT = Set.of("ConcurrentHashMap", "ConcurrentSkipListMap", "CopyOnWriteArrayList", "CopyOnWriteArraySet",
      "KeySetView", "ConcurrentLinkedQueue", "ConcurrentLinkedDeque", "ConcurrentSkipListSet", "LinkedBlockingQueue", "LinkedBlockingDeque");

  void c19() {
    String C = "MultiConsumerStateMachineListener", lt = type("StateMachineListener");
    // the collection and its type
    World w = world();
    V init = V.sym("listeners", "[L" + lt + ";").nn();
    V mc = w.alloc(w.st, C);
    for (Engine.Out o : w.ctor(w.st.copy(), mc, init)) if (o.exc == null) { w.st = o.st; break; }
    w.st.trace.clear();
    for (St.Cell c : new ArrayList<>(w.st.heap.values())) {
      if (c.base.k == V.K.OBJ && c.base.op.startsWith("S")) continue;
      if (c.f.equals("$map") || c.f.equals("$ovl") || c.f.equals("$list") || c.f.equals("$ver")) w.st.drop(c.base, c.f);
    }
    w.st.facts.clear(); w.st.atoms.clear(); w.st.ivl.clear();
    V from = w.sym("from", "State").nn(), to = w.sym("to", "State").nn(), ev = w.sym("event", "StateEvent").nn(), l = w.sym("listener", "StateMachineListener").nn();
    Set<V> colls = new LinkedHashSet<>();
    Map<V, Boolean> locked = new HashMap<>();
    for (String m : List.of("onStateChangeBegin", "onStateChangeEnd")) {
      String op = "StateMachineListener." + m, root = C + "." + m;
      w.cases(root, w.call(w.st.copy(), mc, m, from, ev, to), w.kase("any listeners").then((o, f) -> {
        List<Each> ls = Each.of(w.e.lib, o.st, g -> g.k == Eff.K.CALL && g.op.startsWith("StateMachineListener."));
        List<Eff> flat = World.effs(o.st.trace, g -> g.k == Eff.K.CALL && g.op.startsWith("StateMachineListener."));
        for (Eff g : World.all(o.st.trace)) if (otherThread(g)) return "an announcement is handed to another thread at " + g.site;
        if (ls.isEmpty()) {
          if (flat.isEmpty() && World.all(o.st.trace).stream().noneMatch(g -> g.k == Eff.K.LOOP || g.k == Eff.K.ITER)) {
            boolean none = o.st.ivl.values().stream().anyMatch(iv -> iv[1] == 0);
            return none ? null : "no listener is notified" + (o.exc == null ? "" : ", throws " + o.exc);
          }
          if (flat.isEmpty()) return o.exc == null ? "no listener is notified" : null;
          throw new World.Undecided("listeners are notified outside a recognised traversal");
        }
        if (ls.size() > 1) return "listeners are notified in two loops, at " + ls.get(0).loop.site + " and " + ls.get(1).loop.site;
        Each e = ls.get(0);
        if (e.base == null) throw new World.Undecided("the traversal at " + e.loop.site + " was not recognised");
        V root0 = e.base.k == V.K.APP ? e.base.a[0] : e.base;
        colls.add(root0);
        for (Eff g : World.all(o.st.trace)) if (g.k == Eff.K.MUT && root0.equals(g.recv)) return "an announcement changes the registered listeners by " + g.op + " at " + g.site;
        for (int i = 0; i < e.iters.size(); i++) {
          List<Eff> c = e.calls.get(i);
          V el = e.elems.get(i);
          if (c.isEmpty()) {
            if (Boolean.TRUE.equals(e.iters.get(i).end.decideNull(el))) continue;
            return "a listener is skipped at " + e.loop.site + " when " + e.iters.get(i).end.factsText();
          }
          if (c.size() > 1 || c.get(0).op.startsWith("REPEATED")) return "a listener is notified " + c.size() + " times at " + c.get(c.size() - 1).site;
          if (!isElem(w, e.base, el, c.get(0).recv)) return "notifies " + c.get(0).recv + " instead of the listener at " + c.get(0).site;
          if (!new World.X(op, null, from, ev, to).match(f, c.get(0))) return "a listener is called as " + World.list(c) + " at " + c.get(0).site;
        }
        if (!e.exhausted) {
          if (o.exc == null) return "stops at " + e.loop.site + " before all listeners are notified";
          Eff last = null;
          for (Eff g : e.after) if (g.thrown != null && sameExc(g.thrown, o.exc)) last = g;
          if (last == null) return "throws " + o.exc + " before all listeners are notified";
          if (mayBe(o.exc, RTE)) return "an exception of one listener at " + last.site + " keeps the others from being notified";
        }
        return null;
      }));
    }
    // adding and removing
    V present = null;
    for (V c : colls) {
      V val = w.mapget(c, l);
      boolean map = Lib.MAPS.contains(c.shortType());
      String ct = c.shortType();
      String tr = "listeners are kept in a collection that is safe while announcements are in progress";
      if (c.k == V.K.OBJ && CONCURRENT.contains(ct)) r.ok(tr);
      else if (c.k == V.K.OBJ && !isLocked(w, mc, c, from, ev, to, l)) {
        V wrap = w.st.get(c, "$wrap");
        r.bad(tr, null, "listeners are kept in a " + ct + " created at " + c.x + " and accessed without a lock" + (wrap == null ? "" : " while iterating"), null, null);
      } else if (c.k == V.K.OBJ) r.ok(tr);
      else r.undecided(tr, "collection " + c);
      if (!map) { setOps(w, mc, c, l, C); continue; }
      World.Expect fresh = (o, f) -> {
        if (o.exc != null) return "throws " + V.shortName(o.exc.type);
        List<Eff> mu = World.effs(o.st.trace, g -> g.k == Eff.K.MUT && c.equals(g.recv));
        if (mu.isEmpty()) return "a new listener is not registered";
        for (Eff g : mu) if (!g.op.equals("map.put") || !l.equals(g.arg(0)) || mu.size() > 1) return "changes the listeners by " + World.list(mu) + " at " + g.site;
        if (!l.equals(mu.get(0).arg(1))) {
          if (usesValues(w, mc, c, from, ev, to)) return "registers " + mu.get(0).arg(1) + " for the listener at " + mu.get(0).site;
        }
        if (!Boolean.TRUE.equals(f.decide(o.val))) return "adding a new listener returns " + o.val;
        return atomic(o, c, mu.get(0));
      };
      w.cases(C + ".add", w.call(w.st.copy(), mc, "add", l),
          w.kase("a new listener").is(St.isNull(val)).then(fresh),
          w.kase("a registered listener").not(St.isNull(val)).then((o, f) -> {
            if (o.exc != null) return "throws " + V.shortName(o.exc.type);
            for (Eff g : World.effs(o.st.trace, g -> g.k == Eff.K.MUT && c.equals(g.recv)))
              if (!g.op.equals("map.put")) return "changes the listeners by " + g.op + " at " + g.site;
            return Boolean.FALSE.equals(f.decide(o.val)) ? null : "adding a registered listener returns " + o.val;
          }));
      w.cases(C + ".remove", w.call(w.st.copy(), mc, "remove", l),
          w.kase("a registered listener").not(St.isNull(val)).then((o, f) -> {
            if (o.exc != null) return "throws " + V.shortName(o.exc.type);
            List<Eff> mu = World.effs(o.st.trace, g -> g.k == Eff.K.MUT && c.equals(g.recv));
            if (mu.isEmpty()) return "a registered listener is not removed";
            for (Eff g : mu) if (!g.op.equals("map.remove") || !l.equals(g.arg(0))) return "changes the listeners by " + World.list(mu) + " at " + g.site;
            if (!Boolean.TRUE.equals(f.decide(o.val))) return "removing a registered listener returns " + o.val;
            return atomic(o, c, mu.get(0));
          }),
          w.kase("an unknown listener").is(St.isNull(val)).then((o, f) -> {
            if (o.exc != null) return "throws " + V.shortName(o.exc.type);
            for (Eff g : World.effs(o.st.trace, g -> g.k == Eff.K.MUT && c.equals(g.recv)))
              if (!g.op.equals("map.remove")) return "changes the listeners by " + g.op + " at " + g.site;
            return Boolean.FALSE.equals(f.decide(o.val)) ? null : "removing an unknown listener returns " + o.val;
          }));
    }
    if (colls.isEmpty()) r.undecided(C, "the collection of listeners was not recognised");
    // a history
    World h = world();
    h.e.nonThrowing.add("StateMachineListener.onStateChangeBegin");
    h.e.nonThrowing.add("StateMachineListener.onStateChangeEnd");
    V[] ls = new V[4];
    for (int i = 0; i < 4; i++) ls[i] = V.sym("l" + i, lt).nn();
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) h.st.assume(St.equalsTo(ls[i], ls[j]), false);
    V o0 = h.make(C, arr(h, lt, ls[0], V.NULL, ls[1]));
    announce(h, o0, "the listeners given at construction", from, ev, to, ls[0], ls[1]);
    result(h, o0, "add", ls[2], true);
    result(h, o0, "add", ls[0], false);
    result(h, o0, "remove", ls[0], true);
    result(h, o0, "remove", ls[3], false);
    announce(h, o0, "the listeners after add and remove", from, ev, to, ls[1], ls[2]);
    result(h, o0, "add", ls[0], true);
    announce(h, o0, "the listeners after adding one again", from, ev, to, ls[0], ls[1], ls[2]);
    result(h, o0, "remove", ls[1], true);
    result(h, o0, "add", ls[3], true);
    announce(h, o0, "the listeners after replacing one", from, ev, to, ls[0], ls[2], ls[3]);
    r.use(h.e);
    r.use(w.e);
  }
  private boolean isElem(World w, V coll, V el, V recv) {
    if (el == null || recv == null) return false;
    if (el.equals(recv)) return true;
    return recv.equals(w.e.lib.entryKey(el)) || recv.equals(w.e.lib.entryVal(el));
  }
  private boolean usesValues(World w, V mc, V c, V from, V ev, V to) {
    for (Engine.Out o : w.call(w.st.copy(), mc, "onStateChangeBegin", from, ev, to))
      for (Eff g : World.all(o.st.trace)) if (g.k == Eff.K.ITER && g.recv != null && g.recv.is("keySet")) return false;
    return true;
  }
  private boolean isLocked(World w, V mc, V c, V from, V ev, V to, V l) {
    Set<V> common = null;
    List<List<Engine.Out>> all = List.of(w.call(w.st.copy(), mc, "onStateChangeBegin", from, ev, to), w.call(w.st.copy(), mc, "onStateChangeEnd", from, ev, to),
        w.call(w.st.copy(), mc, "add", l), w.call(w.st.copy(), mc, "remove", l));
    for (List<Engine.Out> outs : all) for (Engine.Out o : outs) for (Eff g : World.all(o.st.trace)) {
      boolean touches = g.recv != null && (g.recv.equals(c) || g.recv.k == V.K.APP && g.recv.a.length > 0 && g.recv.a[0].equals(c));
      if (!touches || g.k != Eff.K.MUT && g.k != Eff.K.ITER && g.k != Eff.K.READ) continue;
      if (common == null) common = new HashSet<>(g.locks); else common.retainAll(g.locks);
    }
    return common != null && !common.isEmpty();
  }
  private String atomic(Engine.Out o, V c, Eff mu) {
    if (!mu.locks.isEmpty()) return null;
    for (Eff g : o.st.trace) {
      if (g == mu) return null;
      if (g.k == Eff.K.READ && c.equals(g.recv)) return "the listeners are checked at " + g.site + " and changed at " + mu.site + " in separate steps";
    }
    return null;
  }
  private void setOps(World w, V mc, V c, V l, String C) {
    V has = V.app("contains", "Z", c, l);
    for (String m : List.of("add", "remove")) {
      boolean add = m.equals("add");
      for (Engine.Out o : w.call(w.st.copy(), mc, m, l)) {
        List<Eff> mu = World.effs(o.st.trace, g -> g.k == Eff.K.MUT && c.equals(g.recv));
        String rule = C + "." + m;
        if (o.exc != null) judge(w, rule, o, "throws " + V.shortName(o.exc.type));
        else if (!mu.isEmpty()) {
          String err = null;
          for (Eff g : mu) if (!g.op.endsWith("." + m) && !g.op.endsWith("IfAbsent")) err = "changes the listeners by " + g.op + " at " + g.site;
          if (err == null) err = atomic(o, c, mu.get(0));
          judge(w, rule, o, err);
        } else {
          Boolean d = o.st.decide(o.val);
          if (Boolean.TRUE.equals(d)) judge(w, rule, o, "returns true without a change");
          else r.ok(rule);
        }
      }
    }
  }
  private void announce(World w, V mc, String rule, V from, V ev, V to, V... want) {
    for (String m : List.of("onStateChangeBegin", "onStateChangeEnd")) {
      w.st.trace.clear();
      St next = null;
      for (Engine.Out o : w.call(w.st.copy(), mc, m, from, ev, to)) {
        r.paths++;
        List<Eff> got = World.effs(o.st.trace, g -> g.k == Eff.K.CALL && g.op.contains("StateMachineListener."));
        String err = null;
        for (Eff g : got) if (!new World.X("StateMachineListener." + m, null, from, ev, to).match(o.st, g)) err = "calls " + World.list(List.of(g)) + " at " + g.site;
        for (V v : want) {
          int n = 0;
          for (Eff g : got) if (v.equals(g.recv)) n++;
          if (n != 1 && err == null) err = "listener " + v + " is notified " + n + " times";
        }
        if (err == null && got.size() != want.length) err = "the listeners notified are " + World.list(got);
        if (err == null && o.exc != null) err = "throws " + o.exc;
        judge(w, rule + " [" + m + "]", o, err);
        if (o.exc == null) next = o.st;
      }
      // what an announcement leaves behind is there for the next
      if (next != null) w.st = next;
    }
  }
  private void result(World w, V mc, String m, V l, boolean want) {
    Engine.Out n = w.normal(w.call(w.st.copy(), mc, m, l), m);
    w.st = n.st;
    Boolean d = w.st.decide(n.val);
    String rule = "a history of add and remove";
    if (d == null) r.undecided(rule, m + " returns " + n.val);
    else if (d == want) r.ok(rule);
    else r.bad(rule, null, m + "(" + l + ") returns " + d, n.st, null);
  }

  // ---- C24 ---------------------------------------------------------------------------------

  void c24() {
    String root = "Threads.newNamedDaemonThreadFactory";
    for (boolean withHandler : new boolean[]{true, false}) {
      World w = world();
      V name = V.sym("name", "java/lang/String").nn(), h = V.sym("handler", "java/lang/Thread$UncaughtExceptionHandler").nn(), run = V.sym("work", "java/lang/Runnable").nn();
      Engine.Out f = w.normal(withHandler ? w.callStatic(w.st, "Threads", "newNamedDaemonThreadFactory", name, h)
          : w.callStatic(w.st, "Threads", "newNamedDaemonThreadFactory", name), root);
      w.st = f.st;
      w.e.conc = true;
      thread(w, root, f.val, run, name, withHandler ? h : null, null);
      r.use(w.e);
    }
    // the default executor, as the configuration makes it and as the strategies use it
    for (String kind : Arrays.asList(null, "createDefaultStrategy", "createDropDuplicateStrategy")) for (int k = 0; k < (kind == null ? 3 : 2); k++) {
      World w = world();
      V run = V.sym("work", "java/lang/Runnable").nn();
      V c = w.config(k == 2, "withExecutor");
      if (k == 1) w.callOne(c, "withThreadName", V.sym("threadName", "java/lang/String").nn());
      String rule = "default executor" + (kind == null ? "" : " of " + kind);
      List<Engine.Out> all = kind == null ? w.call(w.st.copy(), c, "getExecutor") : executors(w, c, kind);
      if (all.isEmpty()) r.undecided(rule, "no executor was recognised");
      for (Engine.Out made : all) {
        r.paths++;
        V ex = made.val;
        V how = ex == null ? null : made.st.get(ex, "$ctor");
        V fac = null;
        if (how != null) for (V a : how.a) if (a.k == V.K.OBJ && p.inApp(a.type) || a.k == V.K.LAM) fac = a;
        if (how == null) { r.undecided(rule, "executor " + ex); continue; }
        if (fac == null) {
          if (how.op.startsWith("Executors.") && how.a.length <= 1 || ChkStrategy.shared(how)) r.bad(rule, null, "the default executor made by " + how + " at " + ex.x + " uses no thread factory of the library", null, null);
          else r.undecided(rule, "executor " + how);
          continue;
        }
        World v = world();
        v.st = made.st.copy();
        v.e = w.e;
        v.e.conc = true;
        thread(v, rule, fac, run, k > 0 ? V.sym("threadName", "java/lang/String") : V.str("state-machine"), null, "log");
        v.e.conc = false;
      }
      r.use(w.e);
    }
    // work is executed, not submitted: a submitted task hides what it throws
    ChkStrategy cs = new ChkStrategy(p, r, base);
    ChkStrategy.Fire x = cs.fire();
    x.w.cases(ChkStrategy.ROOT, x.outs, x.w.kase("any event").then((o, f) -> {
      for (Eff g : x.execs(o)) if (!g.op.equals("executor.execute") && !g.op.equals("REPEATED executor.execute"))
        return "the drain is handed over by " + g.op + " at " + g.site + ", which keeps an error from the uncaught-exception handler";
      return null;
    }));
  }
  /** The executors a strategy made from a configuration hands its work to. */
  private List<Engine.Out> executors(World w, V config, String kind) {
    Engine.Out made = w.normal(w.callStatic(w.st, "EventProcessingStrategyFactory", kind, config), kind);
    w.st = made.st;
    w.strategy = made.val;
    w.machine().configured().havoc().running();
    List<Engine.Out> l = new ArrayList<>();
    Set<V> seen = new HashSet<>();
    for (Engine.Out o : w.call(w.st.copy(), w.strategy, "processEvent", w.sym("event", "StateEvent").nn(), w.gsm))
      for (Eff g : World.effs(o.st.trace, g -> g.k == Eff.K.CALL && g.op.startsWith("executor.")))
        if (g.recv != null && seen.add(g.recv)) l.add(new Engine.Out(o.st, g.recv, null));
    return l;
  }
  private void thread(World w, String root, V fac, V run, V name, V handler, String log) {
    r.roots.add(root);
    w.st.trace.clear();
    List<Engine.Out> outs = fac.k == V.K.LAM ? w.e.callFn(fac, "java/util/concurrent/ThreadFactory", "newThread", "(Ljava/lang/Runnable;)Ljava/lang/Thread;", new V[]{run}, w.st.copy())
        : w.call(w.st.copy(), fac, "newThread", run);
    long[] by = null;
    for (Engine.Out o : outs) {
      r.paths++;
      String err = null;
      if (o.exc != null) { judge(w, root, o, "making a thread throws " + V.shortName(o.exc.type)); continue; }
      V t = o.val;
      if (t == null || t.k != V.K.OBJ || !"java/lang/Thread".equals(t.type)) { r.undecided(root, "thread " + t); continue; }
      V d = o.st.get(t, "$daemon"), hd = o.st.get(t, "$handler"), rn = o.st.get(t, "$runnable"), nm = o.st.get(t, "$name");
      judge(w, root + " [daemon]", o, V.TRUE.equals(d) ? null : "the thread made at " + t.x + " is not a daemon");
      if (rn == null) r.undecided(root + " [work]", "the work of the thread is not known");
      else if (rn.equals(run)) r.ok(root + " [work]");
      else if (rn.k == V.K.LAM || rn.k == V.K.OBJ && p.inApp(rn.type)) wrapped(w, root, o, rn, run);
      else judge(w, root + " [work]", o, "the thread runs " + rn + " instead of the given work");
      if (handler != null) judge(w, root + " [uncaught-exception handler]", o, handler.equals(hd) ? null : "the thread's uncaught-exception handler is " + hd);
      if (log != null) {
        if (hd == null || hd.isNull()) judge(w, root + " [uncaught-exception handler]", o, "the thread has no uncaught-exception handler");
        else {
          V exc = V.sym("uncaught", "java/lang/Throwable").nn(), th = V.sym("thread", "java/lang/Thread").nn();
          for (Engine.Out q : w.e.callFn(hd, "java/lang/Thread$UncaughtExceptionHandler", "uncaughtException", "(Ljava/lang/Thread;Ljava/lang/Throwable;)V", new V[]{th, exc}, o.st.copy())) {
            List<Eff> lg = World.effs(q.st.trace, g -> g.k == Eff.K.LOG);
            boolean has = false, part = false;
            for (Eff g : lg) for (V a : g.args) {
              part |= a.mentions(exc);
              has |= whole(a, exc);
            }
            judge(w, root + " [uncaught exceptions are logged]", q, has && q.exc == null ? null : part ? "of an uncaught exception only a part is logged" : "an uncaught exception is not logged");
          }
        }
      }
      // the name
      if (nm == null || nm.isNull()) { judge(w, root + " [name]", o, "the thread is not named"); continue; }
      if (!nm.mentions(name)) { judge(w, root + " [name]", o, "the thread's name " + nm + " does not contain the given name"); continue; }
      if (nm.is("format") && nm.a[0].isStr() && count((String) nm.a[0].x, "%") < nm.a.length - 1) { judge(w, root + " [name]", o, "the format " + nm.a[0] + " drops part of the name"); continue; }
      String alt = part(nm, name) ? null : altered(nm, name);
      if (alt != null) { judge(w, root + " [name]", o, "the given name is changed by " + alt); continue; }
      r.ok(root + " [name]");
      Eff num = null;
      List<Eff> rmw = new ArrayList<>();
      for (Eff g : o.st.trace) if ((g.k == Eff.K.WRITE || g.k == Eff.K.CAS) && g.op.equals("$val") && g.res != null) rmw.add(g);
      for (Eff g : rmw) if (part(nm, g.res)) num = g;
      if (num == null) for (Eff g : rmw) if (g.arg(0) != null && part(nm, g.arg(0))) num = g;
      String rule = root + " [unique number]";
      if (num == null) {
        boolean mixed = false;
        for (Eff g : rmw) if (nm.mentions(g.res)) mixed = true;
        if (mixed) judge(w, rule, o, "the number in the name " + nm + " is not the counter's own value, so it repeats");
        else judge(w, rule, o, "the thread's name " + nm + " contains no number taken atomically from a counter");
        continue;
      }
      long[] step = num.arg(0) == null || num.k == Eff.K.CAS && num.arg(1) == null ? new long[]{1, 1}
          : num.k == Eff.K.CAS ? o.st.range(num.arg(1), num.arg(0)) : o.st.range(num.arg(0), num.res);
      if (by == null) by = step;
      if (step[0] == 0 && step[1] == 0) err = "the counter does not change at " + num.site;
      else if (step[0] != step[1] || step[0] != by[0]) err = "the counter is not advanced by a fixed amount at " + num.site;
      boolean stat = num.recv.k == V.K.OBJ && num.recv.op.startsWith("S");
      if (err == null && !stat) err = "the counter " + num.recv + " belongs to one factory, so two factories with one name repeat numbers";
      judge(w, rule, o, err);
    }
  }
  private void wrapped(World w, String root, Engine.Out o, V rn, V run) {
    for (Engine.Out q : w.e.callFn(rn, "java/lang/Runnable", "run", "()V", V.NONE, o.st.copy())) {
      List<Eff> l = World.effs(q.st.trace, g -> g.op.endsWith("Runnable.run"));
      if (l.size() == 1 && l.get(0).thrown != null && !sameExc(l.get(0).thrown, q.exc) && run.equals(l.get(0).recv)) {
        judge(w, root + " [work]", q, "an exception of the work at " + l.get(0).site + (q.exc == null ? " is swallowed" : " is replaced by " + q.exc));
        continue;
      }
      judge(w, root + " [work]", q, l.size() == 1 && run.equals(l.get(0).recv) && !l.get(0).op.startsWith("REP") ? null : "the thread runs " + World.list(l) + " instead of the given work");
    }
  }
  /** The operation that changes a string on its way into another, or null. */
  private String altered(V s, V x) {
    if (s.k != V.K.APP || !s.mentions(x)) return null;
    if (Set.of("toLowerCase", "toUpperCase", "trim", "strip", "stripLeading", "stripTrailing", "substring", "replace", "replaceAll", "replaceFirst", "repeat", "length", "hashCode", "Objects.hashCode", "charAt").contains(s.op)) return s.op;
    for (V a : s.a) { String t = altered(a, x); if (t != null) return t; }
    return null;
  }
  static int count(String s, String x) {
    int n = 0;
    for (int i = s.indexOf(x); i >= 0; i = s.indexOf(x, i + x.length())) n++;
    return n;
  }
  /** Is x printed as such (possibly shifted by a constant) within a string term? */
  private boolean part(V s, V x) {
    if (s.equals(x)) return true;
    if (s.is("+") && s.a.length == 2 && s.a[1].isInt()) return part(s.a[0], x);
    if (s.k != V.K.APP) return false;
    boolean str = s.is("concat") || s.is("format") || s.is("join") || s.is("intern") || s.is("str") || s.is("toString") || s.op.startsWith("Integer.") || s.op.startsWith("Long.")
        || s.op.startsWith("String.") || s.op.startsWith("StringJoiner.") || s.op.startsWith("sb.");
    if (!str) return false;
    for (V a : s.a) if (part(a, x)) return true;
    return false;
  }

  // ---- C25 ---------------------------------------------------------------------------------

  void c25() {
    String[] withs = {"withUnmappedEventHandler", "withExecutor", "withUnexpectedFlowListener", "withMaxQueueSize", "withEventQueue"};
    for (String kind : List.of("createDefaultStrategy", "createDropDuplicateStrategy")) {
      for (int mask = 0; mask < 32; mask++) for (int order = 0; order < 3; order++) {
        World w = world();
        w.executor = V.sym("executor", "java/util/concurrent/ExecutorService").nn();
        w.ufl = w.sym("ufl", "UnexpectedFlowListener").nn();
        w.handler = V.sym("handler", "java/util/function/BiConsumer").nn();
        w.max = V.sym("max", "I");
        w.queue = World.objQueue();
        V[] vals = {w.handler, w.executor, w.ufl, w.max, w.queue};
        V c = w.make("Config");
        StringBuilder desc = new StringBuilder();
        // in either order, the thread name first, last or not at all
        V nm = V.sym("someThreadName", "java/lang/String").nn();
        if (order == 1) w.callOne(c, "withThreadName", nm);
        for (int k = 0; k < 5; k++) {
          int i = order == 1 ? 4 - k : k;
          if ((mask >> i & 1) == 0) continue;
          V same = w.callOne(c, withs[i], vals[i]);
          if (!c.equals(same)) r.bad("Config." + withs[i], null, "returns " + same + " instead of the configuration", null, null);
          desc.append(desc.length() > 0 ? ", " : "").append(withs[i].substring(4));
        }
        if (order == 2) w.callOne(c, "withThreadName", nm);
        if (order > 0) desc.append(desc.length() > 0 ? ", " : "").append(order == 1 ? "ThreadName first" : "ThreadName last");
        Engine.Out o = w.normal(w.callStatic(w.st, "EventProcessingStrategyFactory", kind, c), kind);
        w.st = o.st;
        w.strategy = o.val;
        String rule = kind + " with " + (mask == 0 ? "nothing given" : desc);
        used(w, rule, mask, order > 0 ? nm : null);
        if ((mask & 2) == 0 && order == 0) {
          // the name is for the default executor's threads, whatever else is given
          World t = world();
          V tc = t.make("Config"), tn = V.sym("threadName", "java/lang/String").nn();
          for (int i = 0; i < 5; i++) if ((mask >> i & 1) != 0) t.callOne(tc, withs[i], vals[i]);
          t.callOne(tc, "withThreadName", tn);
          for (Engine.Out q : t.call(t.st.copy(), tc, "getExecutor")) {
            r.paths++;
            if (q.exc != null || q.val == null) r.undecided(rule + " and a thread name", "executor " + q.val);
            else threadNamed(t, q.st, q.val, rule + " and a thread name", tn);
          }
          r.use(t.e);
        }
        r.use(w.e);
      }
    }
    // what is given last counts
    for (String kind : List.of("createDefaultStrategy", "createDropDuplicateStrategy")) {
      World w = world();
      w.executor = V.sym("executor", "java/util/concurrent/ExecutorService").nn();
      w.ufl = w.sym("ufl", "UnexpectedFlowListener").nn();
      w.handler = V.sym("handler", "java/util/function/BiConsumer").nn();
      w.max = V.sym("max", "I");
      w.queue = World.objQueue();
      V[] vals = {w.handler, w.executor, w.ufl, w.max, w.queue};
      V[] first = {V.sym("firstHandler", "java/util/function/BiConsumer").nn(), V.sym("firstExecutor", "java/util/concurrent/ExecutorService").nn(),
          w.sym("firstUfl", "UnexpectedFlowListener").nn(), V.sym("firstMax", "I"), V.sym("firstQueue", "java/util/Queue").nn()};
      V c = w.make("Config");
      for (int i = 0; i < 5; i++) w.callOne(c, withs[i], first[i]);
      for (int i = 0; i < 5; i++) w.callOne(c, withs[i], vals[i]);
      Engine.Out o = w.normal(w.callStatic(w.st, "EventProcessingStrategyFactory", kind, c), kind);
      w.st = o.st;
      w.strategy = o.val;
      used(w, kind + " with everything given twice", 31, null);
      r.use(w.e);
    }
    // the builder
    twice();
    for (int mask = 0; mask < 8; mask++) {
      World w = world();
      w.st = w.e.initialState();
      V ctx = V.sym("ctx", null), lis = w.sym("listener", "StateMachineListener").nn(), strat = w.sym("strategy", "EventProcessingStrategy").nn();
      V b = w.make("Builder");
      if ((mask & 1) != 0) b = w.callOne(b, "setContext", ctx);
      if ((mask & 2) != 0) b = w.callOne(b, "setStateMachineListener", lis);
      if ((mask & 4) != 0) b = w.callOne(b, "setEventProcessingStrategy", strat);
      w.gsm = w.callOne(b, "build");
      w.strategy = strat;
      w.configured().havoc();
      String rule = "a built machine uses what the builder was given";
      V got = w.obs(w.st, w.gsm, "getContext");
      if ((mask & 1) != 0) {
        if (got != null && got.key.equals(ctx.key)) r.ok(rule + " [context]");
        else r.bad(rule + " [context]", null, "getContext of a machine that may have been started, stopped or reconfigured is " + got, null, null);
      } else if (got != null && got.isNull()) r.ok(rule + " [context]");
      else r.bad(rule + " [context]", null, "a machine built without context has context " + got, null, null);
      if ((mask & 4) != 0) {
        w.assumeObs(w.gsm, "isStarted", true, "isEnded", false);
        V ev = w.sym("event", "StateEvent").nn();
        w.cases("GenericStateMachine.fire", w.call(w.st.copy(), w.gsm, "fire", ev), w.kase("running").then((q, f) ->
            World.exactly(q, f, World.effs(q.st.trace, g -> g.k == Eff.K.CALL && g.op.contains("EventProcessingStrategy.")), new World.X("EventProcessingStrategy.processEvent", strat, ev, w.gsm))));
        List<Engine.Out> sz = w.call(w.st.copy(), w.gsm, "getEventQueueSize");
        for (Engine.Out q : sz) judge(w, rule + " [strategy]", q, q.val != null && q.val.mentions(strat) ? null : "the queue size is not taken from the given strategy");
      }
      if ((mask & 4) != 0) {
        World n = world();
        n.st = n.e.initialState();
        V nb = n.callOne(n.make("Builder"), "setEventProcessingStrategy", strat);
        n.gsm = n.callOne(nb, "build");
        n.configured().havoc();
        n.assumeObs(n.gsm, "isStarted", false);
        V ev = n.sym("event", "StateEvent").nn(), u = V.app("getUnexpectedFlowListener", type("UnexpectedFlowListener"), strat);
        n.cases("GenericStateMachine.fire before start", n.call(n.st.copy(), n.gsm, "fire", ev), n.kase("not started").then((q, f) ->
            World.exactly(q, f, World.effs(q.st.trace, g -> g.op.contains("UnexpectedFlowListener.on")), new World.X("UnexpectedFlowListener.onEventBeforeMachineStart", u, ev, n.gsm))));
        r.use(n.e);
      }
      // the listener is the one given, before anything replaces it
      World v = world();
      v.st = v.e.initialState();
      b = v.make("Builder");
      if ((mask & 1) != 0) b = v.callOne(b, "setContext", ctx);
      if ((mask & 2) != 0) b = v.callOne(b, "setStateMachineListener", lis);
      if ((mask & 4) != 0) b = v.callOne(b, "setEventProcessingStrategy", strat);
      V m = v.callOne(b, "build");
      V from = v.sym("from", "State").nn(), to = v.sym("to", "State").nn(), e2 = v.sym("ev", "StateEvent").nn();
      for (Engine.Out q : v.call(v.st.copy(), m, "notifyStateMachineListener", V.TRUE, from, e2, to)) {
        List<Eff> l = World.effs(q.st.trace, ChkMachine::trans);
        if (q.exc != null && l.isEmpty()) { judge(v, rule + " [listener]", q, "throws " + q.exc); continue; }
        judge(v, rule + " [listener]", q, (mask & 2) != 0 ? l.size() == 1 && lis.equals(l.get(0).recv) ? null : "a transition is announced by " + World.list(l)
            : l.isEmpty() ? null : "a machine without listener announces to " + World.list(l));
      }
      // building again makes another machine with the same collaborators
      V m2 = v.callOne(b, "build");
      String again = "a second machine of the same builder uses what the builder was given";
      if (m2.equals(m)) r.bad(again, null, "build() returns the same machine again", null, null);
      V c2 = v.obs(v.st, m2, "getContext"), c1 = v.obs(v.st, m, "getContext");
      if (c1 != null && c1.equals(c2)) r.ok(again + " [context]");
      else r.bad(again + " [context]", null, "the context is " + c2 + " instead of " + c1, null, null);
      v.st.trace.clear();
      for (Engine.Out q : v.call(v.st.copy(), m2, "notifyStateMachineListener", V.TRUE, from, e2, to)) {
        List<Eff> l = World.effs(q.st.trace, ChkMachine::trans);
        if (q.exc != null && l.isEmpty()) { judge(v, again + " [listener]", q, "throws " + q.exc); continue; }
        judge(v, again + " [listener]", q, (mask & 2) != 0 ? l.size() == 1 && lis.equals(l.get(0).recv) ? null : "a transition is announced by " + World.list(l)
            : l.isEmpty() ? null : "a machine without listener announces to " + World.list(l));
      }
      if ((mask & 4) != 0) for (Engine.Out q : v.call(v.st.copy(), m2, "getEventQueueSize"))
        judge(v, again + " [strategy]", q, q.val != null && q.val.mentions(strat) ? null : "the queue size is not taken from the given strategy");
      r.use(w.e);
      r.use(v.e);
    }
    context();
    service();
  }
  /** A builder given something twice uses the last. */
  private void twice() {
    World w = world();
    w.st = w.e.initialState();
    V b = w.make("Builder"), ctx = V.sym("ctx", null), lis = w.sym("listener", "StateMachineListener").nn(), strat = w.sym("strategy", "EventProcessingStrategy").nn();
    b = w.callOne(b, "setContext", V.sym("firstCtx", null));
    b = w.callOne(b, "setStateMachineListener", w.sym("firstListener", "StateMachineListener").nn());
    b = w.callOne(b, "setEventProcessingStrategy", w.sym("firstStrategy", "EventProcessingStrategy").nn());
    b = w.callOne(b, "setContext", ctx);
    b = w.callOne(b, "setStateMachineListener", lis);
    b = w.callOne(b, "setEventProcessingStrategy", strat);
    V m = w.callOne(b, "build");
    String rule = "a builder uses what it was given last";
    V c = w.obs(w.st, m, "getContext");
    if (c != null && c.key.equals(ctx.key)) r.ok(rule + " [context]"); else r.bad(rule + " [context]", null, "the context is " + c, null, null);
    for (Engine.Out q : w.call(w.st.copy(), m, "getEventQueueSize"))
      judge(w, rule + " [strategy]", q, q.val != null && q.val.mentions(strat) ? null : "the queue size is taken from " + q.val);
    w.st.trace.clear();
    for (Engine.Out q : w.call(w.st.copy(), m, "notifyStateMachineListener", V.TRUE, w.sym("from", "State").nn(), w.sym("ev", "StateEvent").nn(), w.sym("to", "State").nn())) {
      List<Eff> l = World.effs(q.st.trace, ChkMachine::trans);
      judge(w, rule + " [listener]", q, l.size() == 1 && lis.equals(l.get(0).recv) ? null : "a transition is announced by " + World.list(l));
    }
    r.use(w.e);
  }
  /** The threads of an executor made by the library are named as configured. */
  private void threadNamed(World w, St st, V ex, String rule, V name) {
    V how = st.get(ex, "$ctor");
    V fac = null;
    if (how != null) for (V a : how.a) if (a.k == V.K.OBJ && p.inApp(a.type) || a.k == V.K.LAM) fac = a;
    if (fac == null) { r.undecided(rule, "executor " + ex); return; }
    for (Engine.Out q : w.call(st.copy(), fac, "newThread", V.sym("work", "java/lang/Runnable").nn())) {
      if (q.exc != null || q.val == null) { r.undecided(rule, "thread " + q.val); continue; }
      V nm = q.st.get(q.val, "$name");
      judge(w, rule, q, nm != null && nm.mentions(name) ? null : "the processing thread is named " + nm);
    }
  }
  private void used(World w, String rule, int mask, V name) {
    boolean h = (mask & 1) != 0, ex = (mask & 2) != 0, uf = (mask & 4) != 0, mx = (mask & 8) != 0, q = (mask & 16) != 0;
    V u = w.obs(w.st, w.strategy, "getUnexpectedFlowListener");
    if (uf ? w.ufl.equals(u) : u != null && u.k == V.K.OBJ) r.ok(rule);
    else r.bad(rule, null, "the unexpected-flow listener is " + u, null, null);
    w.machine().configured().havoc().running();
    w.event = w.sym("event", "StateEvent").nn();
    w.st.assume(St.isNull(w.mapget(w.map, w.cur)), false);
    World.X rep = new World.X("UnexpectedFlowListener.onExceptionDuringEventProcessing", w.ufl, w.event, w.gsm, null, null);
    V size = V.app("size", "I", w.queue);
    List<Engine.Out> outs = w.call(w.st.copy(), w.strategy, "processEvent", w.event, w.gsm);
    r.roots.add(rule);
    V task = null, qu = null, exu = null;
    St at = null;
    for (Engine.Out o : outs) {
      r.paths++;
      String err = null;
      List<Eff> offers = World.effs(o.st.trace, g -> g.k == Eff.K.MUT && g.op.startsWith("queue.offer") && g.args.size() == 1 && !V.FALSE.equals(g.res));
      List<Eff> execs = World.effs(o.st.trace, g -> g.k == Eff.K.CALL && g.op.startsWith("executor."));
      for (Eff g : execs) {
        if (ex && !w.executor.equals(g.recv)) err = "the executor used at " + g.site + " is " + g.recv;
        if (!ex && w.executor.equals(g.recv)) err = "impossible";
        if (g.thrown == null) { task = g.arg(0); at = o.st; exu = g.recv; }
      }
      if (!execs.isEmpty() && !offers.isEmpty()) {
        qu = offers.get(0).recv;
        if (q && !w.queue.equals(qu)) err = "the queue used at " + offers.get(0).site + " is " + qu;
      }
      List<Eff> reps = World.effs(o.st.trace, g -> g.op.startsWith("UnexpectedFlowListener."));
      for (Eff g : reps) if (uf && !w.ufl.equals(g.recv)) err = "reports to " + g.recv + " at " + g.site;
      // the limit
      if (q && mx) {
        Boolean full = o.st.decideCmp(">=", size, w.max), pos = o.st.decideCmp(">", w.max, V.FALSE);
        if (Boolean.TRUE.equals(full) && Boolean.TRUE.equals(pos) && !offers.isEmpty()) err = "the given maximum size is not respected at " + offers.get(0).site;
        St s = o.st.copy();
        if (s.assumeCmp(">", w.max, V.FALSE, true) && s.assumeCmp(">=", size, w.max, true) && !offers.isEmpty()) err = "the given maximum size is not compared before queueing at " + offers.get(0).site;
        if (!reps.isEmpty() && World.effs(o.st.trace, g -> g.k == Eff.K.MUT && g.op.startsWith("queue.offer") && w.queue.equals(g.recv)).isEmpty()) {
          St s2 = o.st.copy();
          St s3 = o.st.copy();
          if (s3.assumeCmp("<=", w.max, V.FALSE, true)) err = "an event is refused although the given maximum size is not positive, at " + reps.get(0).site;
          if (s2.assumeCmp("<", size, w.max, true)) err = "an event is refused although the queue is below the given maximum size, at " + reps.get(0).site;
        }
      } else if (!mx && q) {
        if (!reps.isEmpty() && World.effs(o.st.trace, g -> g.k == Eff.K.MUT && g.op.startsWith("queue.offer") && w.queue.equals(g.recv)).isEmpty()) err = "an event is refused at " + reps.get(0).site + " although no maximum size was given";
      }
      judge(w, rule, o, err);
    }
    if (task == null) { r.undecided(rule, "no task handed to the executor was recognised"); return; }
    if (!ex && (exu == null || exu.k != V.K.OBJ)) r.bad(rule, null, "without a given executor the strategy uses " + exu, null, null);
    else if (!ex && name != null) threadNamed(w, at, exu, rule + " [thread name]", name);
    if (!q && (qu == null || qu.k != V.K.OBJ)) r.bad(rule, null, "without a given queue the strategy uses " + qu, null, null);
    // what processing an unmapped event calls
    V tt = null;
    for (St.Cell c : w.st.heap.values()) if (c.val != null && c.val.k == V.K.OBJ && "TransitionTask".equals(c.val.shortType())) tt = c.val;
    if (tt == null) { r.undecided(rule, "the transition task was not recognised"); return; }
    St s = w.st.copy();
    s.trace.clear();
    V to = w.mapget(w.mapget(w.map, w.cur), w.event);
    for (Engine.Out o : w.call(s, tt, "execute", w.event, w.gsm)) {
      if (!Boolean.TRUE.equals(o.st.decideNull(to))) continue;
      r.paths++;
      List<Eff> l = World.effs(o.st.trace, g -> g.k == Eff.K.CALL || g.k == Eff.K.LOG);
      if (h) judge(w, rule + " [unmapped event]", o, World.exactly(o, o.st, l, new World.X("BiConsumer.accept", w.handler, w.event, w.gsm)));
      else {
        boolean onlyLog = o.exc == null;
        for (Eff g : l) if (g.k != Eff.K.LOG) onlyLog = false;
        judge(w, rule + " [unmapped event]", o, onlyLog ? null : "the default handling of an unmapped event is " + World.list(l));
      }
    }
  }
  private void context() {
    World w = world();
    V name = V.sym("appName", "java/lang/String"), args = V.sym("args", "[Ljava/lang/String;"), subs = V.sym("subsystems", "java/util/List"), th = V.sym("thread", "java/lang/String");
    V c = w.make("AbstractAppContext", name, args);
    String rule = "app context";
    same(rule + " [name]", w.obs(w.st, c, "getAppName"), name);
    same(rule + " [arguments]", w.obs(w.st, c, "getInitArgs"), args);
    V t0 = w.obs(w.st, c, "getAppThreadName");
    if (t0 != null && t0.isStr()) r.ok(rule); else r.bad(rule, null, "the default thread name is " + t0, null, null);
    V s0 = w.obs(w.st, c, "getSubsystems");
    if (s0 != null && V.num(0).equals(w.e.lib.size(w.st, s0))) r.ok(rule); else r.bad(rule, null, "without subsystems the list is " + s0, null, null);
    V c2 = w.callOne(c, "withSubsystems", subs);
    same(rule + " [withSubsystems]", c2, c);
    same(rule + " [withAppThreadName]", w.callOne(c, "withAppThreadName", th), c);
    V gotSubs = w.obs(w.st, c, "getSubsystems");
    if (gotSubs != null && !gotSubs.equals(subs) && w.e.lib.size(w.st, gotSubs).isInt()) r.bad(rule + " [subsystems]", null, "the subsystems given are not the ones returned, which are " + gotSubs, null, null);
    else same(rule + " [subsystems]", gotSubs, subs);
    same(rule + " [thread name]", w.obs(w.st, c, "getAppThreadName"), th);
    V subs2 = V.sym("otherSubsystems", "java/util/List").nn(), th2 = V.sym("otherThread", "java/lang/String").nn();
    w.callOne(c, "withSubsystems", subs2);
    same(rule + " [subsystems given again]", w.obs(w.st, c, "getSubsystems"), subs2);
    w.callOne(c, "withAppThreadName", th2);
    same(rule + " [thread name given again]", w.obs(w.st, c, "getAppThreadName"), th2);
    same(rule + " [name]", w.obs(w.st, c, "getAppName"), name);
    same(rule + " [arguments]", w.obs(w.st, c, "getInitArgs"), args);
    for (String g : List.of("getAppName", "getInitArgs", "getSubsystems", "getAppThreadName")) {
      V before = w.obs(w.st, c, g);
      w.callOne(c, g);
      if (before != null) same(rule + " [" + g + " asked again]", w.obs(w.st, c, g), before);
    }
    World v = world();
    V d = v.make("AbstractAppContext", name);
    same(rule + " [name]", v.obs(v.st, d, "getAppName"), name);
    V a0 = v.obs(v.st, d, "getInitArgs");
    if (a0 != null && !a0.isNull() && V.num(0).equals(v.e.lib.size(v.st, a0))) r.ok(rule);
    else r.bad(rule, null, "without arguments they are " + a0, null, null);
    r.roots.add("AbstractAppContext");
    r.use(w.e);
    r.use(v.e);
  }
  private void same(String rule, V got, V want) {
    if (got != null && got.key.equals(want.key)) r.ok(rule);
    else if (got != null && got.type != null && got.k == V.K.OBJ && Boolean.TRUE.equals(p.subtype(got.type, "java/util/List")))
{
      if (got.op.startsWith("S")) r.bad(rule, null, "the value is " + got + " instead of " + want, null, null); // one object for all
      else r.undecided(rule, "a copy is returned");
    }
    else r.bad(rule, null, "the value is " + got + " instead of " + want, null, null);
  }
  private void service() {
    World w = world();
    w.st = w.e.initialState();
    V ctx = V.sym("appContext", type("AppContext")).nn();
    V s = w.make("AbstractAppService", ctx, V.sym("exit", "Z"));
    r.roots.add("AbstractAppService");
    same("app service [context]", w.obs(w.st, s, "getAppContext"), ctx);
    V m = null;
    for (St.Cell c : w.st.heap.values()) if (c.base.equals(s) && c.val != null && c.val.k == V.K.OBJ && "GenericStateMachine".equals(c.val.shortType())) m = c.val;
    if (m == null) { r.undecided("app service", "its machine was not recognised"); return; }
    same("app service [context of its machine]", w.obs(w.st, m, "getContext"), ctx);
    // the processing thread carries the configured name
    V th = V.app("getAppThreadName", "java/lang/String", ctx);
    V ex = null;
    for (St.Cell c : w.st.heap.values()) if (c.val != null && c.val.k == V.K.OBJ && c.val.type != null && (c.val.type.endsWith("ExecutorService") || c.val.type.endsWith("PoolExecutor")) && w.st.get(c.val, "$ctor") != null) ex = c.val;
    String rule = "app service [thread name]";
    if (ex == null) { r.undecided(rule, "its executor was not recognised"); return; }
    V fac = null;
    for (V a : w.st.get(ex, "$ctor").a) if (a.k == V.K.OBJ && p.inApp(a.type) || a.k == V.K.LAM) fac = a;
    if (fac == null) { r.undecided(rule, "its thread factory was not recognised"); return; }
    for (Engine.Out o : w.call(w.st.copy(), fac, "newThread", V.sym("work", "java/lang/Runnable").nn())) {
      V nm = o.exc != null || o.val == null ? null : o.st.get(o.val, "$name");
      boolean nul = Boolean.TRUE.equals(o.st.decideNull(th));
      if (nm != null && (nul || nm.mentions(th))) r.ok(rule);
      else r.bad(rule, null, "the processing thread of an app is named " + nm, o.st, o.exc);
    }
    // a replaced listener is used
    V l = w.sym("newListener", "StateMachineListener").nn();
    w.callOne(s, "setStateMachineListener", l);
    V from = w.sym("from", "State").nn(), to = w.sym("to", "State").nn(), e2 = w.sym("ev", "StateEvent").nn();
    w.st.trace.clear();
    for (Engine.Out q : w.call(w.st.copy(), m, "notifyStateMachineListener", V.TRUE, from, e2, to)) {
      List<Eff> got = World.effs(q.st.trace, ChkMachine::trans);
      judge(w, "app service [listener]", q, got.size() == 1 && l.equals(got.get(0).recv) ? null : "a transition is announced by " + World.list(got));
    }
    r.use(w.e);
  }

  // ---- C29 ---------------------------------------------------------------------------------

  void c29() {
    World w = world();
    w.e.derefUnknown = true;
    V from = w.sym("from", "State").nn(), to = w.sym("to", "State").nn(), ev = w.sym("event", "StateEvent").nn();
    Map<String, Set<String>> formats = new TreeMap<>();
    for (V name : List.of(V.NULL, V.str(""), V.sym("listenerName", "java/lang/String").nn())) {
      w.st = w.e.newState();
      if (name.k == V.K.SYM) {
        w.st.assume(V.app("isBlank", "Z", name), false);
        w.st.assumeCmp(">", V.app("length", "I", name), V.FALSE, true);
      }
      V l = w.make("LoggingStateMachineListener", name);
      for (String m : List.of("onStateChangeBegin", "onStateChangeEnd")) {
        boolean begin = m.endsWith("Begin");
        List<Object> needs = new ArrayList<>();
        if (begin) needs.addAll(List.of(from, ev, to)); else needs.add(to);
        if (name.k == V.K.SYM) needs.add(name);
        String root = "LoggingStateMachineListener." + m;
        logs(w, root, w.call(w.st.copy(), l, m, from, ev, to), needs, formats, m + "/" + (name.k == V.K.SYM ? "named" : "unnamed"), null);
      }
    }
    if (w.p.cls("LoggingStateMachineListener") != null) {
      World v = world();
      v.e.derefUnknown = true;
      V l = v.alloc(v.st, "LoggingStateMachineListener");
      for (Engine.Out o : v.ctor(v.st, l)) if (o.exc == null) v.st = o.st;
      for (String m : List.of("onStateChangeBegin", "onStateChangeEnd"))
        logs(v, "LoggingStateMachineListener." + m, v.call(v.st.copy(), l, m, from, ev, to), new ArrayList<>(List.of(to)), new TreeMap<>(), m, null);
    }
    for (String k : List.of("named", "unnamed")) distinct("begin and end are told apart", formats, "onStateChangeBegin/" + k, "onStateChangeEnd/" + k);
    World u = world();
    u.e.derefUnknown = true;
    V d = u.make("DefaultUnexpectedFlowListener");
    V sm = u.sym("machine", "StateMachine").nn(), exc = V.sym("exception", "java/lang/Exception").nn(), th = V.sym("thread", "java/lang/Thread").nn();
    V cs = V.app("getCurrentState", type("State"), sm);
    u.st.assume(St.isNull(cs), false);
    Map<String, Set<String>> f2 = new TreeMap<>();
    logs(u, "DefaultUnexpectedFlowListener.onExceptionDuringEventProcessing", u.call(u.st.copy(), d, "onExceptionDuringEventProcessing", ev, sm, th, exc), List.of(ev, cs, exc), f2, "exception", exc);
    World z = world();
    z.e.derefUnknown = true;
    V d2 = z.make("DefaultUnexpectedFlowListener");
    for (String m : List.of("onEventAfterMachineEnd", "onEventBeforeMachineStart"))
      logs(z, "DefaultUnexpectedFlowListener." + m, z.call(z.st.copy(), d2, m, ev, sm), List.of(ev), f2, m, null);
    distinct("before start and after end are told apart", f2, "onEventAfterMachineEnd", "onEventBeforeMachineStart");
    distinct("reports are told apart", f2, "exception", "onEventBeforeMachineStart");
    distinct("reports are told apart", f2, "exception", "onEventAfterMachineEnd");
    r.use(u.e);
    r.use(z.e);
    // the default handler of unmapped events
    for (boolean full : new boolean[]{false, true}) {
      World v = world();
      V c = v.config(full, "withUnmappedEventHandler");
      v.st.assume(St.isNull(cs), false);
      for (Engine.Out made : v.call(v.st.copy(), c, "getUnmappedEventHandler")) {
        String rule = "default unmapped-event handler";
        if (made.exc != null || made.val == null) { judge(v, rule, made, "there is none"); continue; }
        for (Engine.Out o : v.e.callFn(made.val, "java/util/function/BiConsumer", "accept", "(Ljava/lang/Object;Ljava/lang/Object;)V", new V[]{ev, sm}, made.st.copy())) {
          r.paths++;
          String err = o.exc != null ? "throws " + V.shortName(o.exc.type) : null;
          for (Eff g : World.all(o.st.trace.subList(Math.min(made.st.trace.size(), o.st.trace.size()), o.st.trace.size()))) {
            if (g.k == Eff.K.CALL) err = "calls " + g.op + " at " + g.site;
            if (g.k == Eff.K.MUT || g.k == Eff.K.WRITE) err = "changes " + g.op + " at " + g.site;
          }
          judge(v, rule, o, err);
        }
      }
      r.use(v.e);
    }
  }
  private void distinct(String rule, Map<String, Set<String>> f, String a, String b) {
    Set<String> x = f.getOrDefault(a, Set.of()), y = f.getOrDefault(b, Set.of());
    if (x.isEmpty() || y.isEmpty()) { r.undecided(rule, "no log format was recognised"); return; }
    Set<String> both = new TreeSet<>(x);
    both.retainAll(y);
    if (both.isEmpty()) r.ok(rule);
    else r.bad(rule, null, a + " and " + b + " write the same text " + both, null, null);
  }
  private void logs(World w, String root, List<Engine.Out> outs, List<?> needs, Map<String, Set<String>> formats, String key, V thrown) {
    int most = 0;
    for (Engine.Out o : outs) for (Eff g : World.effs(o.st.trace, g -> g.k == Eff.K.LOG)) most = Math.max(most, LEVELS.indexOf(g.op.substring(g.op.indexOf('.') + 1)));
    int severest = most;
    Set<V> before = new HashSet<>();
    for (St.Cell c : w.st.heap.values()) before.add(c.base);
    w.cases(root, outs, w.kase("any arguments").then((o, f) -> {
      for (Eff g : World.all(o.st.trace)) {
        if (g.k == Eff.K.CALL) return "calls " + g.op + " at " + g.site;
        // an object made to write this record is nobody else's
        if ((g.k == Eff.K.MUT || g.k == Eff.K.WRITE) && g.recv != null && g.recv.k == V.K.OBJ && !before.contains(g.recv) && !g.recv.op.startsWith("S")) continue;
        if (g.k == Eff.K.MUT || g.k == Eff.K.WRITE) return "changes " + g.op + " at " + g.site;
      }
      if (o.exc != null) return "throws " + V.shortName(o.exc.type);
      List<Eff> l = World.effs(o.st.trace, g -> g.k == Eff.K.LOG);
      boolean disabled = false;
      for (Map.Entry<String, V> a : o.st.atoms.entrySet()) if (a.getValue().k == V.K.RES && a.getValue().op.startsWith("log.is") && Boolean.FALSE.equals(o.st.facts.get(a.getKey()))) disabled |= guards(a.getValue().op, severest);
      for (String a : o.st.facts.keySet()) if (a.startsWith("log.is") && Boolean.FALSE.equals(o.st.facts.get(a))) disabled |= guards(a, severest);
      if (l.isEmpty()) return disabled ? null : "writes no log record";
      if (l.size() > 1 || l.get(0).op.startsWith("REPEATED")) return "writes " + l.size() + " log records, again at " + l.get(l.size() - 1).site;
      Eff g = l.get(0);
      if (g.args.isEmpty()) return "writes an empty log record at " + g.site;
      // a name is not a format: it may hold characters that mean something in one
      for (V a : g.args) for (Object need : needs) if (formats(a, (V) need)) return need + " is used as a format at " + g.site;
      if (g.op.endsWith(".printf")) for (V a : g.args) {
        if (a.isStr()) break;
        for (Object need : needs) if ("java/lang/String".equals(a.type) && a.mentions((V) need)) return need + " is used as a format at " + g.site;
        if ("java/lang/String".equals(a.type)) break;
      }
      V fmt = g.arg(0);
      int nargs = g.args.size() - 1;
      V last = g.args.get(g.args.size() - 1);
      boolean throwable = nargs > 0 && last.type != null && Boolean.TRUE.equals(p.subtype(last.type, "java/lang/Throwable"));
      int params = throwable ? nargs - 1 : nargs;
      if (fmt.isStr()) {
        formats.computeIfAbsent(key, k -> new TreeSet<>()).add(filled((String) fmt.x, g.args));
        int n = count((String) fmt.x, "{}");
        if (n < params) return "the format " + fmt + " at " + g.site + " has no place for " + g.args.subList(1 + n, 1 + params);
        if (n > params) return "the format " + fmt + " at " + g.site + " has places that are not filled";
      } else formats.computeIfAbsent(key, k -> new TreeSet<>()).add(skeleton(fmt));
      for (Object need : needs) {
        V v = (V) need;
        boolean in = false;
        for (V a : g.args) if (a.mentions(v)) in = true;
        if (!in) return "the record written at " + g.site + " does not name " + v;
      }
      if (thrown != null && !last.equals(thrown)) {
        boolean in = false;
        for (V a : g.args) if (a.equals(thrown)) in = true;
        if (!in) return "the exception is not passed to the log at " + g.site;
      }
      return null;
    }));
  }
  static final List<String> LEVELS = List.of("", "trace", "debug", "info", "warn", "error", "fatal");
  /** Is a record of this severity lost anyway when this test of the logger is false? */
  private static boolean guards(String test, int severity) {
    for (int i = 1; i < LEVELS.size(); i++) if (test.toLowerCase().startsWith("log.is" + LEVELS.get(i) + "enabled")) return severity <= i;
    return true;
  }
  /** Is this value part of the format of a text made here? */
  private static boolean formats(V t, V v) {
    if (t.k != V.K.APP) return false;
    if ((t.op.equals("format") || t.op.equals("formatted")) && t.a.length > 0 && !t.a[0].isStr() && t.a[0].mentions(v)) return true;
    for (V a : t.a) if (formats(a, v)) return true;
    return false;
  }
  /** The text with what is known of its parameters. */
  private static String filled(String fmt, List<V> args) {
    StringBuilder sb = new StringBuilder();
    int at = 0, n = 1;
    for (int i; (i = fmt.indexOf("{}", at)) >= 0; at = i + 2, n++)
      sb.append(fmt, at, i).append(n < args.size() && args.get(n).isStr() ? (String) args.get(n).x : "{}");
    return sb.append(fmt.substring(at)).toString();
  }
  private static String skeleton(V v) {
    if (v.isConst()) return v.toString();
    if (v.k != V.K.APP) return "?";
    StringBuilder sb = new StringBuilder(v.op).append('(');
    for (V a : v.a) sb.append(skeleton(a)).append(',');
    return sb.append(')').toString();
  }
}
