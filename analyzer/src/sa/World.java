package sa;

import java.util.*;
import java.util.function.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Sets up abstract objects by analysing their construction, then forgets whatever may have changed since. */
class World {
  static class Undecided extends RuntimeException {
    Undecided(String m) { super(m); }
  }
  /** A step of the set-up that is valid fails on every path. */
  static final class Refused extends Undecided {
    final Engine.Out out;
    Refused(String m, Engine.Out out) { super(m); this.out = out; }
  }
  static final String P = "com/webotech/statemachine/";

  final Prog p;
  final Rep r;
  Engine e;
  St st;
  V strategy, gsm, queue, executor, handler, ufl, max, listener, ctx, event, cur, map, task, s0;

  World(Prog p, Rep r, Engine base) {
    this.p = p;
    this.r = r;
    e = base.fork();
    e.nullable.add("listener");
    st = e.newState();
  }

  String type(String simple) { return p.cls(simple).name; }
  V sym(String n, String simple) { return V.sym(n, simple.contains("/") || simple.length() == 1 ? simple : type(simple)); }

  // ---- calls -------------------------------------------------------------------------------

  V alloc(St s, String simple) {
    String t = type(simple);
    V o = V.obj(e.idPrefix + s.id(), t, "setup");
    e.initFields(s, o, t);
    return o;
  }
  List<Engine.Out> ctor(St s, V obj, V... args) {
    ClassNode c = p.classes.get(obj.type);
    MethodNode best = null;
    for (MethodNode m : c.methods) {
      if (!m.name.equals("<init>") || Type.getArgumentTypes(m.desc).length != args.length) continue;
      if ((m.access & Opcodes.ACC_SYNTHETIC) != 0) continue;
      if (best != null && (best.access & Opcodes.ACC_PUBLIC) != 0) {
        if ((m.access & Opcodes.ACC_PUBLIC) != 0 && !fits(best, args)) best = m;
        continue;
      }
      best = m;
    }
    if (best == null) throw new Prog.Missing("constructor of " + V.shortName(obj.type) + " with " + args.length + " arguments");
    V[] a = new V[args.length + 1];
    a[0] = obj;
    System.arraycopy(args, 0, a, 1, args.length);
    return e.run(p.declared(c.name, "<init>", best.desc), a, s);
  }
  private boolean fits(MethodNode m, V[] args) {
    Type[] ts = Type.getArgumentTypes(m.desc);
    for (int i = 0; i < ts.length; i++)
      if (args[i].type != null && !args[i].isNull() && !p.compatible(args[i].type, Engine.internal(ts[i]))) return false;
    return true;
  }
  V make(String simple, V... args) {
    V o = alloc(st, simple);
    st = normal(ctor(st, o, args), "constructor of " + simple).st;
    return o;
  }
  Engine.Out normal(List<Engine.Out> outs, String what) {
    List<Engine.Out> ok = new ArrayList<>();
    for (Engine.Out o : outs) if (o.exc == null) ok.add(o);
    if (ok.isEmpty()) {
      boolean sure = !outs.isEmpty();
      for (Engine.Out o : outs) for (String n : o.st.notes) if (!n.startsWith("deref ")) sure = false;
      if (sure) throw new Refused(what + " always fails with " + V.shortName(outs.get(0).exc.type), outs.get(0));
      throw new Undecided(what + " never completes normally");
    }
    ok = merge(ok);
    return ok.get(r.choose(ok.size(), what));
  }
  /** Outcomes that differ only in what was tested on the way are one. */
  static List<Engine.Out> merge(List<Engine.Out> outs) {
    if (outs.size() < 2) return outs;
    Map<String, Engine.Out> by = new LinkedHashMap<>();
    for (Engine.Out o : outs) {
      StringBuilder sb = new StringBuilder();
      for (String k : new TreeSet<>(o.st.heap.keySet())) {
        V v = o.st.heap.get(k).val;
        sb.append(k).append('=').append(v == null ? null : v.key).append(';');
      }
      sb.append(o.val == null ? null : o.val.key).append(o.st.notes).append(o.st.locks);
      for (Eff f : o.st.trace) if (f.k != Eff.K.READ && f.k != Eff.K.ITER) sb.append(f.k).append(f.op).append(f.recv).append(f.args);
      Engine.Out was = by.putIfAbsent(sb.toString(), o);
      if (was == null) continue;
      St a = was.st, b = o.st;
      a.facts.entrySet().removeIf(x -> !x.getValue().equals(b.facts.get(x.getKey())));
      a.atoms.keySet().removeIf(x -> !a.facts.containsKey(x));
      for (Iterator<Map.Entry<String, long[]>> it = a.ivl.entrySet().iterator(); it.hasNext(); ) {
        Map.Entry<String, long[]> x = it.next();
        long[] y = b.ivl.get(x.getKey());
        if (y == null) it.remove();
        else x.setValue(new long[]{Math.min(x.getValue()[0], y[0]), Math.max(x.getValue()[1], y[1])});
      }
      a.next[0] = Math.max(a.next[0], b.next[0]);
    }
    return new ArrayList<>(by.values());
  }

  /** Calls a method of an object by name. */
  List<Engine.Out> call(St s, V recv, String name, V... args) {
    V[] a = new V[args.length + 1];
    a[0] = recv;
    System.arraycopy(args, 0, a, 1, args.length);
    if (recv.k == V.K.LAM) return e.callFn(recv, recv.type, name, null, args, s);
    Prog.M m = find(recv.type, name, args.length);
    if (m == null) throw new Prog.Missing("method " + V.shortName(recv.type) + "." + name + "/" + args.length);
    if (recv.k == V.K.OBJ && !m.isAbstract()) return e.run(m, a, s);
    return e.invoke(p.isInterface(m.c.name) ? Opcodes.INVOKEINTERFACE : Opcodes.INVOKEVIRTUAL, recv.type, name, m.m.desc, a, s);
  }
  List<Engine.Out> callStatic(St s, String cls, String name, V... args) {
    Prog.M best = null;
    for (MethodNode m : p.cls(cls).methods) {
      if (m.name.equals(name) && Type.getArgumentTypes(m.desc).length == args.length && (m.access & Opcodes.ACC_SYNTHETIC) == 0)
        best = p.declared(p.cls(cls).name, name, m.desc);
    }
    if (best == null) throw new Prog.Missing("method " + cls + "." + name + "/" + args.length);
    return e.run(best, args, s);
  }
  Prog.M find(String type, String name, int n) {
    Deque<String> q = new ArrayDeque<>(List.of(type));
    Prog.M abs = null;
    while (!q.isEmpty()) {
      ClassNode c = p.classes.get(q.poll());
      if (c == null) continue;
      for (MethodNode m : c.methods) {
        if (m.name.equals(name) && Type.getArgumentTypes(m.desc).length == n && (m.access & (Opcodes.ACC_BRIDGE | Opcodes.ACC_SYNTHETIC)) == 0) {
          Prog.M x = p.declared(c.name, m.name, m.desc);
          if (!x.isAbstract()) return x;
          if (abs == null) abs = x;
        }
      }
      if (c.superName != null) q.add(c.superName);
      q.addAll(c.interfaces);
    }
    return abs;
  }
  V callOne(V recv, String name, V... args) {
    Engine.Out o = normal(call(st, recv, name, args), V.shortName(recv.type) + "." + name);
    st = o.st;
    return o.val;
  }

  /** The value an observer would return in a state; null when it has no single value. */
  V obs(St s, V recv, String name, V... args) {
    boolean c = e.conc;
    Set<String> b = e.boundary;
    e.conc = false;
    e.boundary = new HashSet<>();
    try {
      List<Engine.Out> outs = call(s.copy(), recv, name, args);
      V v = null;
      for (Engine.Out o : outs) {
        if (o.exc != null) return null;
        if (v != null && !v.equals(o.val)) return condition(s, name, outs);
        v = o.val;
      }
      return v;
    } finally {
      e.conc = c;
      e.boundary = b;
    }
  }
  /** A boolean observer with several paths, as one condition. */
  private V condition(St s, String name, List<Engine.Out> outs) {
    List<St.Way> ways = new ArrayList<>();
    TreeSet<String> key = new TreeSet<>();
    for (Engine.Out o : outs) {
      if (o.exc != null || o.val == null || !e.isBool(o.val) && !V.TRUE.equals(o.val) && !V.FALSE.equals(o.val)) return null;
      St[] sp = e.split(o.st.copy(), o.val);
      for (int i = 0; i < 2; i++) {
        if (sp[i] == null) continue;
        ways.add(new St.Way(sp[i], i == 1));
        key.add(i + ":" + new TreeMap<>(sp[i].facts) + ivls(sp[i]));
      }
    }
    return V.paths(name, ways, key.toString());
  }
  private static String ivls(St s) {
    TreeMap<String, String> m = new TreeMap<>();
    s.ivl.forEach((k, v) -> m.put(k, v[0] + ".." + v[1]));
    return m.toString();
  }
  Boolean obsBool(St s, St facts, V recv, String name) {
    boolean c = e.conc;
    e.conc = false;
    try {
      Boolean res = null;
      List<Engine.Out> outs = call(s.copy(), recv, name);
      for (Engine.Out o : outs) {
        if (o.exc != null || o.val == null) return null;
        Boolean d = facts.decide(o.val);
        if (d == null) d = o.st.decide(o.val);
        if (d == null) return null;
        // only branches consistent with the facts count
        if (!consistent(facts, o.st)) continue;
        if (res != null && !res.equals(d)) return null;
        res = d;
      }
      return res;
    } finally { e.conc = c; }
  }
  /** The value an observer of the machine reports when its cells hold these values; null when there is no single one. */
  V seenValue(String name, St facts, Map<String, V[]> cells) {
    St s = facts.copy();
    for (V[] c : cells.values()) {
      String f = c[1].op.substring(c[1].op.lastIndexOf('.') + 1);
      if (c[2] == null) s.drop(c[0], f); else s.put(c[0], f, c[2]);
    }
    return obs(s, gsm, name);
  }
  /** What a boolean observer of the machine says when its cells hold these values. */
  Boolean seen(String name, St facts, Map<String, V[]> cells) {
    St s = facts.copy();
    for (V[] c : cells.values()) {
      String f = c[1].op.substring(c[1].op.lastIndexOf('.') + 1);
      if (c[2] == null) s.drop(c[0], f); else s.put(c[0], f, c[2]);
    }
    Boolean b = obsBool(s, s, gsm, name);
    if (b != null) return b;
    // a cell that only ever holds one of a few constants
    for (V[] c : cells.values()) {
      Set<V> dom = domain.get(c[1].op + " of " + c[0]);
      if (dom == null || dom.isEmpty() || dom.size() > 12 || c[2] != null && c[2].k != V.K.FLD && c[2].k != V.K.RES) continue;
      String f = c[1].op.substring(c[1].op.lastIndexOf('.') + 1);
      Boolean all = null;
      boolean same = true;
      for (V d : dom) {
        St t = facts.copy();
        if (c[2] != null && !holds(t, c[2], d)) continue;
        for (V[] x : cells.values()) if (x != c) {
          String g = x[1].op.substring(x[1].op.lastIndexOf('.') + 1);
          if (x[2] == null) t.drop(x[0], g); else t.put(x[0], g, x[2]);
        }
        t.put(c[0], f, d);
        Boolean one = obsBool(t, t, gsm, name);
        if (one == null || all != null && !all.equals(one)) { same = false; break; }
        all = one;
      }
      if (same && all != null) return all;
    }
    return null;
  }
  /** The constants a shared cell can hold, where that is known. */
  final Map<String, Set<V>> domain = new HashMap<>();
  /** Can this value be that constant, given what the path knows? */
  private static boolean holds(St s, V x, V d) {
    if (d.isInt() && !s.assumeCmp("==", x, d, true) || !d.isInt() && !s.assume(St.same(x, d), true)) return false;
    for (Map.Entry<String, V> a : new ArrayList<>(s.atoms.entrySet())) {
      Boolean b = s.facts.get(a.getKey());
      V v = replace(a.getValue(), x, d, s);
      if (b == null || v.equals(a.getValue())) continue;
      Boolean n = s.decide(v);
      if (n != null && !n.equals(b)) return false;
    }
    return true;
  }
  private static V replace(V v, V x, V d, St s) {
    if (v.equals(x)) return d;
    if (v.k == V.K.FLD && v.a[0].equals(x)) {
      V c = s.get(d, v.op);
      return c == null ? v : c;
    }
    if (v.k != V.K.APP) return v;
    V[] a = new V[v.a.length];
    boolean ch = false;
    for (int i = 0; i < a.length; i++) { a[i] = replace(v.a[i], x, d, s); ch |= a[i] != v.a[i]; }
    return ch ? V.app(v.op, v.type, a) : v;
  }
  /** A cell of an effect with a value: its owner, its name, the value. */
  static void cell(Map<String, V[]> m, Eff g, V val) { m.put(ChkMachine.cellKey(g), new V[]{g.recv, V.sym(g.op, null), val}); }

  /** Two reads of one cell, taken as one. */
  static boolean asOne(St f, St from, V x, V y) {
    for (Map.Entry<String, V> a : from.atoms.entrySet()) {
      Boolean b = from.facts.get(a.getKey());
      if (b != null && a.getValue().mentions(x) && !f.assume(Each.subst(a.getValue(), x, y), b)) return false;
    }
    long[] iv = from.range(x, V.FALSE);
    if (iv[0] > -St.INF && !f.assumeCmp(">=", y, V.lng(iv[0]), true) || iv[1] < St.INF && !f.assumeCmp("<=", y, V.lng(iv[1]), true)) return false;
    String p = "ne {" + x.key + "=1}";
    for (Map.Entry<String, Boolean> e : from.facts.entrySet())
      if (e.getKey().startsWith(p)) f.facts.put("ne {" + y.key + "=1}" + e.getKey().substring(p.length()), e.getValue());
    return true;
  }
  static boolean consistent(St facts, St other) {
    for (Map.Entry<String, V> a : other.atoms.entrySet()) {
      Boolean v = other.facts.get(a.getKey());
      Boolean d = facts.decide(a.getValue());
      if (v != null && d != null && !d.equals(v)) return false;
    }
    return true;
  }
  /** Restricts the current state to those where boolean observers have these values. */
  void assumeObs(V recv, Object... want) {
    boolean c = e.conc;
    e.conc = false;
    List<St> l = new ArrayList<>(List.of(st));
    try {
      for (int i = 0; i < want.length; i += 2) {
        List<St> n = new ArrayList<>();
        for (St s : l) for (Engine.Out o : call(s, recv, (String) want[i])) {
          if (o.exc != null || o.val == null) continue;
          St k = e.split(o.st, o.val)[(Boolean) want[i + 1] ? 1 : 0];
          if (k != null) n.add(k);
        }
        l = n;
      }
    } finally { e.conc = c; }
    if (l.isEmpty()) throw new Undecided("the observers are never " + Arrays.toString(want));
    if (l.size() > 1) throw new Undecided("the observers " + Arrays.toString(want) + " are not a single condition");
    st = l.get(0);
    st.trace.clear();
  }

  // ---- machines ----------------------------------------------------------------------------

  static V objQueue() { return V.obj("Q", "java/util/Queue", "supplied queue"); }

  /** A default strategy over supplied collaborators. */
  World defaultStrategy() {
    queue = objQueue();
    executor = V.sym("executor", "java/util/concurrent/ExecutorService").nn();
    ufl = sym("ufl", "UnexpectedFlowListener").nn();
    handler = V.sym("handler", "java/util/function/BiConsumer").nn();
    max = V.sym("max", "I");
    strategy = make("DefaultEventStrategy", handler, executor, ufl, max, queue);
    return this;
  }
  /** A machine with that strategy (or a supplied one), configured with an initial state and unknown transitions. */
  World machine() {
    if (strategy == null) {
      strategy = sym("strategy", "EventProcessingStrategy").nn();
      ufl = V.app("getUnexpectedFlowListener", type("UnexpectedFlowListener"), strategy).nn();
    }
    ctx = V.sym("ctx", null);
    listener = sym("listener", "StateMachineListener");
    V b = make("Builder");
    b = callOne(b, "setContext", ctx);
    b = callOne(b, "setStateMachineListener", listener);
    b = callOne(b, "setEventProcessingStrategy", strategy);
    gsm = callOne(b, "build");
    return this;
  }
  World configured() {
    s0 = sym("s0", "State").nn();
    distinct(s0);
    callOne(gsm, "initialSate", s0);
    map = null;
    for (St.Cell c : new ArrayList<>(st.heap.values())) {
      if (c.f.equals("$map") && !Boolean.TRUE.equals(c.base.op.startsWith("S"))) {
        for (int i = 0; i < c.val.a.length; i += 2) if (c.val.a[i].equals(s0)) map = c.base;
      }
    }
    // its values are the tables of outcomes the configuration puts there
    if (map != null) e.nonNullValues.add(map);
    return this;
  }
  /** A user's state or event does not carry a reserved name, so it is not equal to the machine's own objects. */
  void distinct(V v) {
    for (St.Cell c : new ArrayList<>(st.heap.values()))
      if (c.val != null && c.val.k == V.K.OBJ && p.inApp(c.val.type) && Boolean.TRUE.equals(p.subtype(c.val.type, v.type)))
        st.assume(St.equalsTo(v, c.val), false);
  }
  /** Forgets everything that can change after construction. */
  World havoc() {
    Set<String> mut = mutableFields();
    memory.clear();
    for (St.Cell c : st.heap.values()) if (isMemory(c)) memory.add(c);
    for (St.Cell c : new ArrayList<>(st.heap.values())) {
      if (c.base.k == V.K.OBJ && c.base.op.startsWith("S")) continue;
      if (c.f.equals("$val")) st.drop(c.base, c.f);
      else if (c.f.equals("$list") && (Lib.QUEUES.contains(c.base.shortType()) || "LinkedList".equals(c.base.shortType()) && kept(c.base))) st.drop(c.base, c.f);
      else if (c.f.equals("$map")) {
        if (settled(c.base)) continue;
        st.drop(c.base, c.f);
        if (c.base.equals(map)) {
          List<V> l = new ArrayList<>();
          for (int i = 0; i < c.val.a.length; i += 2) {
            if (c.val.a[i].equals(s0)) continue;
            l.add(c.val.a[i]);
            l.add(c.val.a[i + 1]);
          }
          st.put(map, "$ovl", V.app("$ovl", null, l.toArray(V.NONE)));
        }
      } else if (c.base.k == V.K.OBJ && p.inApp(c.base.type) && !c.f.startsWith("$")
          && mut.contains(V.shortName(p.fieldOwner(c.base.type, c.f)) + "." + c.f)) st.drop(c.base, c.f);
    }
    if (!memory.isEmpty() && gsm != null) {
      Set<String> seen = observed();
      memory.removeIf(c -> seen.contains(V.shortName(p.fieldOwner(c.base.type, c.f)) + "." + c.f));
    }
    st.trace.clear();
    return this;
  }
  /** The fields that what the machine reports about itself depends on, wherever it keeps them. */
  Set<String> observed() {
    Set<String> seen = new TreeSet<>();
    for (String m : List.of("isStarted", "isEnded", "getCurrentState"))
      for (Engine.Out o : call(st.copy(), gsm, m)) {
        fieldsOf(o.val, seen);
        for (V a : o.st.atoms.values()) fieldsOf(a, seen);
      }
    return seen;
  }
  private void fieldsOf(V v, Set<String> out) {
    if (v == null) return;
    if (v.k == V.K.FLD && v.a[0].k == V.K.OBJ && p.inApp(v.a[0].type)) out.add(V.shortName(p.fieldOwner(v.a[0].type, v.op)) + "." + v.op);
    for (V a : v.a) fieldsOf(a, out);
  }

  /** What the library's own objects other than the machine, its queues and event carriers remember from earlier operations. */
  private final List<St.Cell> memory = new ArrayList<>();
  private boolean isMemory(St.Cell c) {
    if (c.base.k != V.K.OBJ || c.base.op.startsWith("S") || c.val == null) return false;
    if (c.f.equals("$list") || c.f.equals("$map") || c.f.equals("$val")) return !Lib.QUEUES.contains(c.base.shortType()) && !"LinkedList".equals(c.base.shortType()) && kept(c.base);
    if (c.f.startsWith("$")) return false;
    if (!p.inApp(c.base.type) || c.base.equals(gsm)) return false;
    String o = V.shortName(p.fieldOwner(c.base.type, c.f));
    if (o.equals("GenericStateMachine") || o.equals("Builder") || o.equals("Config") || o.equals("EventMachinePair")) return false;
    if (!c.base.type.startsWith(P)) return false;
    return later().contains(o + "." + c.f);
  }
  /** Is this library object held by the strategy's own objects, and by nothing of the machine's? */
  private boolean kept(V o) {
    boolean k = false;
    for (St.Cell c : st.heap.values()) {
      if (!o.equals(c.val)) continue;
      if (c.f.startsWith("$") || c.base.k != V.K.OBJ || !p.inApp(c.base.type) || !c.base.type.startsWith(P)) return false;
      String t = V.shortName(c.base.type);
      if (c.base.equals(gsm) || t.equals("Builder") || t.equals("Config") || t.equals("EventMachinePair") || t.startsWith("Named")) return false;
      k = true;
    }
    return k;
  }
  private static final Set<String> LOOKUPS = Set.of("get", "getOrDefault", "containsKey", "containsValue", "size", "isEmpty", "forEach");
  /** Is this a map that is filled by a constructor and only looked into by everything else? */
  private boolean settled(V o) {
    if (o.equals(map) || o.k != V.K.OBJ) return false;
    V tag = st.get(o, "$tag");
    if (tag != null && tag.isStr() && "immutable".equals(tag.x)) return true;
    boolean held = false;
    for (St.Cell c : st.heap.values()) {
      if (!o.equals(c.val)) continue;
      if (held || c.f.startsWith("$") || c.base.k != V.K.OBJ || !p.inApp(c.base.type)) return false;
      held = true;
      String own = p.fieldOwner(c.base.type, c.f);
      FieldNode fn = p.field(own, c.f);
      if (fn == null || (fn.access & Opcodes.ACC_FINAL) == 0 || (fn.access & Opcodes.ACC_PRIVATE) == 0) return false;
      for (Prog.M m : p.allMethods()) {
        if (m.m.name.startsWith("<")) continue;
        boolean uses = false, changes = false;
        for (AbstractInsnNode in : m.m.instructions) {
          if (in.getOpcode() == Opcodes.GETFIELD && ((FieldInsnNode) in).name.equals(c.f) && own.equals(p.fieldOwner(((FieldInsnNode) in).owner, c.f))) {
            uses = true;
            AbstractInsnNode n = in.getNext();
            while (n != null && n.getOpcode() < 0) n = n.getNext();
            int k = n == null ? -1 : n.getOpcode();
            if (k == Opcodes.ARETURN || k == Opcodes.ASTORE || k == Opcodes.PUTFIELD || k == Opcodes.DUP) return false;
            if (n instanceof MethodInsnNode && (k == Opcodes.INVOKESTATIC || k == Opcodes.INVOKESPECIAL || p.inApp(((MethodInsnNode) n).owner))) return false;
          }
          if (in instanceof MethodInsnNode && ((MethodInsnNode) in).owner.startsWith("java/util/") && ((MethodInsnNode) in).owner.endsWith("Map") && !LOOKUPS.contains(((MethodInsnNode) in).name)) changes = true;
        }
        if (uses && changes) return false;
      }
    }
    return held;
  }
  private Set<String> laterFields;
  /** Fields assigned by anything but constructors and the hand-over of the transition table. */
  private Set<String> later() {
    if (laterFields != null) return laterFields;
    laterFields = new TreeSet<>();
    for (Prog.M m : p.allMethods()) {
      if (m.m.name.equals("<init>") || m.m.name.equals("setStates")) continue;
      for (AbstractInsnNode in : m.m.instructions) {
        if (in.getOpcode() != Opcodes.PUTFIELD) continue;
        FieldInsnNode f = (FieldInsnNode) in;
        if (p.inApp(f.owner)) laterFields.add(V.shortName(p.fieldOwner(f.owner, f.name)) + "." + f.name);
      }
    }
    return laterFields;
  }
  /** Optionally continues from the state an earlier, arbitrary operation left behind (one alternative per distinct outcome); thoroughly, from up to two. */
  World warm(Function<St, List<Engine.Out>> op) {
    if (memory.isEmpty()) return this;
    St s = st.copy();
    for (St.Cell c : memory) s.put(c.base, c.f, c.val);
    for (int i = 0; i < (r.thorough ? 2 : 1); i++) {
      Map<String, St> after = new LinkedHashMap<>();
      for (Engine.Out o : op.apply(s.copy())) {
        StringBuilder sig = new StringBuilder();
        boolean changed = false;
        for (St.Cell c : memory) {
          V v = o.st.get(c.base, c.f), was = s.get(c.base, c.f);
          sig.append(v).append(';');
          if (Objects.equals(v, was)) continue;
          changed = true;
          // how far a number has got after any number of operations is not known
          if (number(c)) o.st.drop(c.base, c.f);
        }
        if (gsm != null) sig.append(obs(o.st, gsm, "getCurrentState"));
        if (changed && gsm != null && over(o.st)) continue;
        if (changed && after.size() < 8) after.putIfAbsent(sig.toString(), o.st);
      }
      int k = r.choose(1 + after.size());
      if (k == 0) return this;
      s = new ArrayList<>(after.values()).get(k - 1);
      s.trace.clear();
      st = s;
      warmed = true;
    }
    return this;
  }
  boolean warmed;
  /** Has the machine ended here? */
  private boolean over(St s) {
    boolean c = e.conc;
    e.conc = false;
    try {
      for (Engine.Out o : call(s.copy(), gsm, "isEnded"))
        if (o.exc == null && o.val != null && e.split(o.st, o.val)[0] != null) return false;
      return true;
    } finally { e.conc = c; }
  }
  private int earlier;
  /** Another event than those of earlier operations, equal to them or not. */
  V earlier() { return sym("earlierEvent" + (earlier++ == 0 ? "" : earlier), "StateEvent").nn(); }
  private boolean number(St.Cell c) {
    if (c.f.equals("$val")) return Set.of("AtomicInteger", "AtomicLong", "LongAdder").contains(c.base.shortType());
    if (c.f.startsWith("$")) return false;
    FieldNode f = p.field(c.base.type, c.f);
    return f != null && (f.desc.equals("I") || f.desc.equals("J") || f.desc.equals("S") || f.desc.equals("B"));
  }

  private Set<String> mutable;
  /** Instance fields assigned outside the construction of their own object. */
  Set<String> mutableFields() {
    if (mutable != null) return mutable;
    mutable = new TreeSet<>();
    for (Prog.M m : p.allMethods()) {
      boolean init = m.m.name.equals("<init>");
      for (AbstractInsnNode in : m.m.instructions) {
        if (in.getOpcode() != Opcodes.PUTFIELD) continue;
        FieldInsnNode f = (FieldInsnNode) in;
        if (!p.inApp(f.owner)) continue;
        String o = p.fieldOwner(f.owner, f.name);
        if (init && o.equals(m.c.name)) continue;
        mutable.add(V.shortName(o) + "." + f.name);
      }
    }
    // configuration that is handed over once, before the machine exists, does not change afterwards
    for (String f : new ArrayList<>(mutable)) {
      String cls = f.substring(0, f.indexOf('.'));
      if (cls.equals("Builder") || cls.equals("Config")) mutable.remove(f);
      if (cls.equals("TransitionTask")) mutable.remove(f);
    }
    return mutable;
  }

  World running() {
    assumeObs(gsm, "isStarted", true, "isEnded", false);
    cur = obs(st, gsm, "getCurrentState");
    if (cur == null) throw new Undecided("getCurrentState has no single value");
    st.assume(St.isNull(cur), false);
    return this;
  }
  V mapget(V m, V k) { return V.app("mapget", null, m, k); }

  /** A configuration that was given nothing, or everything but the thing asked about. */
  V config(boolean full, String... not) {
    V c = make("Config");
    if (!full) return c;
    List<String> skip = Arrays.asList(not);
    Object[][] a = {{"withUnmappedEventHandler", V.sym("handler", "java/util/function/BiConsumer").nn()}, {"withExecutor", V.sym("executor", "java/util/concurrent/ExecutorService").nn()},
        {"withUnexpectedFlowListener", sym("ufl", "UnexpectedFlowListener").nn()}, {"withMaxQueueSize", V.sym("max", "I")}, {"withEventQueue", objQueue()},
        {"withThreadName", V.sym("threadName", "java/lang/String").nn()}};
    for (Object[] x : a) if (!skip.contains(x[0])) callOne(c, (String) x[0], (V) x[1]);
    return c;
  }

  /** The value as a parameter of an interface type would see it. */
  V typed(V v) { return v; }

  V field(St s, V base, Predicate<V> pred) {
    for (St.Cell c : s.heap.values()) if (c.base.equals(base) && c.val != null && pred.test(c.val)) return c.val;
    return null;
  }

  // ---- paths -------------------------------------------------------------------------------

  static final Set<String> TRANSITION_OPS = Set.of("State.onExit", "State.onEntry", "StateMachineListener.onStateChangeBegin",
      "StateMachineListener.onStateChangeEnd", "BiConsumer.accept", "StateAction.execute");

  /** Effects of a path that satisfy a predicate; those inside a widened loop appear as REPEATED. */
  static List<Eff> effs(List<Eff> trace, Predicate<Eff> q) {
    List<Eff> l = new ArrayList<>();
    for (Eff f : trace) {
      if (f.k == Eff.K.LOOP) {
        for (Loop.Iter it : f.loop.iters)
          for (Eff g : effs(it.effs, q)) {
            Eff x = new Eff(g.k, "REPEATED " + g.op, g.recv, g.args, g.site, g.locks, g.region);
            x.snap = g.snap;
            x.res = g.res;
            l.add(x);
          }
      } else if (q.test(f)) l.add(f);
    }
    return l;
  }
  static List<Eff> all(List<Eff> trace) {
    List<Eff> l = new ArrayList<>();
    for (Eff f : trace) {
      l.add(f);
      if (f.k == Eff.K.LOOP) for (Loop.Iter it : f.loop.iters) l.addAll(all(it.effs));
    }
    return l;
  }
  static boolean eq(St s, V a, V b) {
    if (a == null || b == null) return a == b;
    if (a.equals(b)) return true;
    if (Boolean.TRUE.equals(s.decide(St.same(a, b)))) return true;
    V x = norm(s, a, false), y = norm(s, b, false);
    return x.equals(y) || !x.equals(a) && Boolean.TRUE.equals(s.decide(St.same(x, y)));
  }
  /** A value with its parts replaced by what the path knows to be equal to them. */
  static V norm(St s, V v, boolean asKey) {
    for (int i = 0; i < 4; i++) {
      V n = norm1(s, v, asKey);
      if (n.equals(v)) return n;
      v = n;
    }
    return v;
  }
  private static V norm1(St s, V v, boolean asKey) {
    if (v.k == V.K.APP && v.a.length > 0) {
      V[] a = new V[v.a.length];
      boolean ch = false;
      for (int i = 0; i < a.length; i++) {
        a[i] = norm1(s, v.a[i], v.is("mapget") && i == 1);
        ch |= !a[i].equals(v.a[i]);
      }
      if (ch) v = V.app(v.op, v.type, a);
    }
    V best = v;
    for (Map.Entry<String, V> e : s.atoms.entrySet()) {
      V c = e.getValue();
      if (!(c.is("same") || asKey && c.is("equals")) || !Boolean.TRUE.equals(s.facts.get(e.getKey()))) continue;
      V o = c.a[0].equals(v) ? c.a[1] : c.a[1].equals(v) ? c.a[0] : null;
      if (o != null && !o.isNull() && o.key.compareTo(best.key) < 0) best = o;
    }
    return best;
  }
  static String list(List<Eff> l) {
    StringBuilder sb = new StringBuilder("[");
    for (Eff f : l) {
      if (sb.length() > 1) sb.append("; ");
      sb.append(f.op).append(f.recv == null ? "" : " on " + f.recv).append(f.args);
      if (f.thrown != null) sb.append(" throws");
    }
    return sb.append("]").toString();
  }
  static final class X {
    final String op; final V recv; final V[] args;
    X(String op, V recv, V... args) { this.op = op; this.recv = recv; this.args = args; }
    boolean match(St s, Eff f) {
      if (!f.op.equals(op) || recv != null && !eq(s, recv, f.recv) || args.length != f.args.size()) return false;
      for (int i = 0; i < args.length; i++) if (args[i] != null && !eq(s, args[i], f.args.get(i))) return false;
      return true;
    }
    @Override public String toString() { return op + (recv == null ? "" : " on " + recv) + Arrays.toString(args); }
  }
  /** Checks that exactly these effects happen, in this order; a throwing effect ends the sequence. */
  static String exactly(Engine.Out o, St facts, List<Eff> got, X... want) {
    return exactly(o, facts, got, Arrays.asList(want));
  }
  static String exactly(Engine.Out o, St facts, List<Eff> got, List<X> want) {
    for (int i = 0; i < got.size(); i++) {
      if (i >= want.size()) return "unexpected " + list(got.subList(i, i + 1)) + " at " + got.get(i).site + " after " + list(got.subList(0, i));
      if (!want.get(i).match(facts, got.get(i)))
        return "expected " + want.get(i) + " but found " + list(got.subList(i, i + 1)) + " at " + got.get(i).site + (i == 0 ? "" : " after " + list(got.subList(0, i)));
      if (got.get(i).thrown != null) {
        if (i != got.size() - 1) return "continues after " + list(got.subList(i, i + 1)) + " at " + got.get(i).site + " with " + list(got.subList(i + 1, got.size()));
        if (o.exc == null) return "the exception of " + list(got.subList(i, i + 1)) + " at " + got.get(i).site + " is lost";
        return null;
      }
    }
    if (got.size() < want.size()) return "missing " + want.get(got.size()) + (got.isEmpty() ? "" : " after " + list(got)) + (o.exc != null ? ", throws " + o.exc : "");
    if (o.exc != null) return "throws " + o.exc + " after " + list(got);
    return null;
  }

  interface Expect { String check(Engine.Out o, St facts); }
  final class Case {
    final String name; final List<Object[]> as = new ArrayList<>(); Expect ex;
    Case(String name) { this.name = name; }
    Case is(V atom) { as.add(new Object[]{atom, true}); return this; }
    Case not(V atom) { as.add(new Object[]{atom, false}); return this; }
    Case cmp(String op, V a, V b) { as.add(new Object[]{op, a, b}); return this; }
    Case then(Expect x) { ex = x; return this; }
    boolean apply(St s) {
      for (Object[] o : as) {
        if (o[0] instanceof V) { if (!s.assume((V) o[0], (Boolean) o[1])) return false; }
        else if (!s.assumeCmp((String) o[0], (V) o[1], (V) o[2], true)) return false;
      }
      return true;
    }
  }
  Case kase(String n) { return new Case(n); }

  static boolean imprecise(St s) {
    for (String n : s.notes) if (!n.startsWith("deref ")) return true;
    return false;
  }
  static String notes(St s) {
    List<String> l = new ArrayList<>();
    for (String n : s.notes) if (!n.startsWith("deref ")) l.add(n);
    return l.toString();
  }

  /** Every path must meet the expectation of every case it is consistent with; every case must have a path. */
  void cases(String root, List<Engine.Out> outs, Case... cs) {
    r.roots.add(root);
    r.paths += outs.size();
    for (Case c : cs) {
      boolean any = false;
      for (Engine.Out o : outs) {
        St s = o.st.copy();
        if (!c.apply(s)) continue;
        any = true;
        String rule = root + " [" + c.name + "]";
        String err;
        try {
          err = c.ex.check(o, s);
        } catch (Undecided u) {
          r.undecided(rule, u.getMessage());
          continue;
        }
        if (err == null) r.ok(rule);
        else if (imprecise(o.st)) r.undecided(rule, err + " on a path with approximated steps " + notes(o.st));
        else r.bad(rule, null, err, o.st, o.exc);
        if (err == null && r.samples.size() < 3) r.samples.add(rule + ": " + list(effs(o.st.trace, f -> f.k == Eff.K.CALL)));
      }
      String name = root + " [" + c.name + "]";
      if (any) r.covered.add(name);
      else if (r.runs > 0 && !c.apply(st.copy())) r.uncovered.add(name); // another way to set up the objects may allow it
      else r.undecided(name, "no path is consistent with this case");
    }
    r.use(e);
    r.loops += (int) outs.stream().flatMap(o -> o.st.trace.stream()).filter(f -> f.k == Eff.K.LOOP).map(f -> f.site).distinct().count();
  }
}
